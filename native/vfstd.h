// included by the extraction wrappers before '#define private public' so that only sofa-pbrpc classes are opened
#include <any>
#include <deque>
#include <string>
#include <map>
#include <unordered_map>
#include <list>
#include <vector>
#include <set>
#include <queue>
#include <sstream>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <functional>
#include <memory>
#include <boost/asio.hpp>
#include <google/protobuf/io/zero_copy_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/service.h>
#include <google/protobuf/message.h>
#include <sofa/pbrpc/smart_ptr/smart_ptr.hpp>
