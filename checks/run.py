"""python3 checks/run.py <property> [--tier quick|thorough] [--seed N]"""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(H, '../lib'), os.path.join(H, '../gen')]
import fw
REG = {}
for m in ('codec_checks', 'holder_checks', 'text_checks', 'utf8_checks', 'dyn_checks', 'ext_checks', 'any_checks', 'const_checks', 'grpc_checks', 'lexical_checks'):
    REG.update(__import__(m).REG)
if __name__ == '__main__':
    sys.exit(fw.main(REG))
