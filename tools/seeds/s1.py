import sys; sys.path.insert(0, '/verif/tools')
from newseed import make
RB = '''#include <any>
#include <boost/asio.hpp>
#include <sofa/pbrpc/buffer.h>
#include <sofa/pbrpc/tran_buf_pool.h>
#include <cstdio>
#include <cstring>
#include <string>
using namespace sofa::pbrpc;
'''
make('B01-backup-mid-block', 'B01', [('buffer.cc', "        _cur_pos = _cur_it->size - count;", "        _cur_pos = _last_bytes - count;")],
 RB + '''
int main(){ WriteBuffer w; w.Append(std::string("0123456789")); ReadBuffer r; w.SwapOut(&r);
 const void*d;int n; r.Next(&d,&n); r.BackUp(6); r.Next(&d,&n); r.BackUp(2); r.Next(&d,&n);
 std::string s((const char*)d,n); printf("%s\\n",s.c_str()); return s=="89"?0:1; }
''', ['buffer.cc', 'common.cc'], 'backing up twice inside the same block', 'the second back-up resumes at the wrong byte, so bytes are delivered twice')
make('B01-setdata-straddle', 'B01', [('buffer.cc', "            memcpy(cur_it->data + cur_offset, data, cur_size);\n            size -= cur_size;", "            memcpy(cur_it->data, data, cur_size);\n            size -= cur_size;")],
 RB + '''
int main(){ WriteBuffer w; void*d;int n; w.Next(&d,&n); memset(d,'x',n); w.BackUp(3);
 long p=w.Reserve(8); w.SetData(p,"ABCDEFGH",8); int blk=n; ReadBuffer r; w.SwapOut(&r); std::string s=r.ToString();
 std::string want=std::string(blk-3,'x')+"ABCDEFGH"; puts(s==want?"ok":"bad"); return s==want?0:1; }
''', ['buffer.cc', 'common.cc'], 'a reserved header that straddles two blocks', 'the part of the header in the first block overwrites the beginning of that block')
make('B01-append-shared-ref', 'B01', [('buffer.cc', '''        _buf_list.push_back(*it);
        TranBufPool::add_ref(it->data);''', '''        _buf_list.push_back(*it);
        if (_buf_list.size() == 1 || it->data != _buf_list[_buf_list.size() - 2].data)
            TranBufPool::add_ref(it->data);''')],
 RB + '''
#include <cstdlib>
static int frees; static void* watch;
int main(){ char* b=(char*)TranBufPool::malloc(0); memcpy(b,"abcdef",6);
 // two messages cut out of one receive block, put together in a third buffer
 ReadBuffer* m=new ReadBuffer; { BufHandle h(b,3,0); m->Append(h); BufHandle g(b,3,3); m->Append(g); } // references: 1 + 2
 ReadBuffer* t=new ReadBuffer; t->Append(m); // + 2
 int* rc=(int*)(b-4); int got=*rc; printf("references %d\\n",got); return got==5?0:1; }
''', ['buffer.cc', 'common.cc'], 'appending a buffer that holds two consecutive pieces of the same receive block', 'a reference is missed, so the block is released while still in use')
make('K01-b64-tail-highbit', 'K01', [('bin2ascii.h', "\tconst u1 * data = (const u1 *) s.c_str();", "\tconst char * data = s.c_str();"), ('bin2ascii.h', "\t\tunsigned n = data[i] << 16;", "\t\tunsigned n = (u1)data[i] << 16;"), ('bin2ascii.h', "\t\tif (i + 2 < s.size()) n |= data[i + 2];", "\t\tif (i + 2 < s.size()) n |= (u1)data[i + 2];")],
 '''#include <string>
#include <stdexcept>
#include <cstdio>
#include <sofa/pbrpc/bin2ascii.h>
int main(){ std::string s("\\x01\\x90",2); std::string e=sofa::pbrpc::b64_encode(s); puts(e.c_str()); return e=="AZA="&&sofa::pbrpc::b64_decode(e)==s?0:1; }
''', [], 'a byte >= 0x80 at a position congruent to 1 modulo 3', 'the encoded text no longer decodes to the input')
make('K01-b64-last-pad', 'K01', [('bin2ascii.h', "\tfor (size_t i = 0; i < (3 - s.size() % 3) % 3; i++)", "\tfor (unsigned short i = 0, n = s.size(); i < (3 - n % 3) % 3; i++)")],
 '''#include <string>
#include <stdexcept>
#include <cstdio>
#include <sofa/pbrpc/bin2ascii.h>
int main(){ std::string s(65537,'a'); std::string e=sofa::pbrpc::b64_encode(s); printf("%zu\\n",e.size()); return e.size()%4==0?0:1; }
''', [], 'an input of 65536 bytes or more with a length not divisible by three (65536 mod 3 is 1)', 'the padding is missing or too long, so the text is rejected by the decoder')
