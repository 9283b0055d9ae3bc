"""Q02: the server's side of a connection sends its queued responses completely, once and in queue order, and strands none."""
import vf.variant
exec(vf.variant.source('Q01', [(r'RpcMessageStream<int>', 'RpcServerMessageStream<int>'), (r'import props\.F01 as F01', 'import props.F02 as F01'),
                               (r'from props\.F01 import', 'from props.F02 import'), (r"Prop\('Q01'\)", "Prop('Q02')"),
                               (r'(?m)^extern "C" const unsigned long CLOSED = [^\n]*', ''),
                               (r"PROP\.native\('client'[^)]*\)\)?", '')]))

PROP.native('server', 'server.cc', args=['binary', '40'], thorough_args=['binary', '1500'],
            what='real server against a scripted client: responses of all sizes arrive complete, once each, uncorrupted', **F01.ALL)
