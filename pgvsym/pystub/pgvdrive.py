"""Runs validator.py (argv[1]: its directory) on the stand-ins.
texts DESC: the generated functions of the messages named on stdin, as JSON.
check DESC: for each JSON line {"v": tree} prints 1, 0 reason, or X exception."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, sys.argv[1])
import pgvpb                      # noqa: E402
from protoc_gen_validate import validator as V      # noqa: E402


def main():
    w = pgvpb.World(pgvpb.D.Pool(open(sys.argv[3], 'rb').read()))
    if sys.argv[2] == 'texts':
        # what validate() passes to exec() for a message of each type
        out = {}
        got = []

        class Done(BaseException):
            pass

        def capture(text, *args):
            got.append(text)
            raise Done()
        V.exec = capture
        for full in json.load(sys.stdin):
            del got[:]
            try:
                V.validate(pgvpb.Msg(w.message(full)))
                out[full] = [0, 'nothing generated']
            except Done:
                out[full] = [1, got[0]]
            except Exception as e:
                out[full] = [0, '%s: %s' % (type(e).__name__, e)]
        json.dump(out, sys.stdout)
        return
    for line in sys.stdin:
        q = json.loads(line)
        try:
            m = pgvpb.from_tree(w, q['v'])
        except Exception as e:
            print('P %s' % e)
            continue
        try:
            r = V.validate(m)
            print('1' if r is None else 'X validate returns %r' % (r,))
        except V.ValidationFailed as e:
            print('0 ' + str(e).replace('\n', ' ').encode('ascii', 'backslashreplace').decode())
        except Exception as e:
            print('X %s: %s' % (type(e).__name__, str(e).replace('\n', ' ').encode('ascii', 'backslashreplace').decode()))


main()
