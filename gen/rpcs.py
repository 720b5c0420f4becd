"""the service the gRPC checks run"""
import build
PROTO = '''syntax = "proto3";
package grp;
message Msg { int32 n = 1; bytes pad = 2; Msg child = 3; repeated fixed64 many = 4; }
service Svc {
  rpc Unary(Msg) returns (Msg);
  rpc Cs(stream Msg) returns (Msg);
  rpc Ss(Msg) returns (stream Msg);
  rpc Bidi(stream Msg) returns (stream Msg);
}
'''


def gen_dir():
    return build.generate({'grp.proto': PROTO}, 'grp')
