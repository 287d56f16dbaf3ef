"""Runs harnesses concretely against the real package, one forked child per request.

usage: replay_server.py REPO VERIF   (JSON requests on stdin, one per line)
"""
import json
import os
import select
import shutil
import signal
import sys

repo, verif = sys.argv[1], sys.argv[2]
sys.dont_write_bytecode = True
sys.path.insert(0, verif)
sys.path.insert(0, repo)
import importlib  # noqa: E402

from sx import conc  # noqa: E402

for name in ('oelint_parser.cls_stash', 'oelint_parser.parser', 'oelint_parser.constants', 'oelint_parser.cls_item',
             'oelint_parser.inlinerep', 'oelint_parser.rpl_regex'):
    try:
        importlib.import_module(name)
    except Exception:
        pass


def child(req, wfd):
    try:
        root = req['root']
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        os.chdir(root)
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 1)
        os.dup2(nul, 2)
        res = conc.run(req['mod'], req['harness'], req['params'], req['inputs'], root, req.get('known', ()))
    except BaseException as e:
        res = {'error': repr(e)}
    data = json.dumps(res).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os._exit(0)


def main():
    out = os.dup(1)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            importlib.import_module(req['mod'])
        except Exception:
            pass
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            child(req, w)
        os.close(w)
        buf = b''
        limit = req.get('timeout', 10)
        hang = False
        while True:
            rd, _, _ = select.select([r], [], [], limit)
            if not rd:
                hang = True
                os.kill(pid, signal.SIGKILL)
                break
            d = os.read(r, 65536)
            if not d:
                break
            buf += d
        os.close(r)
        os.waitpid(pid, 0)
        if hang:
            res = {'fails': ['hang'], 'end': 'hang', 'obs': None, 'covers': []}
        else:
            try:
                res = json.loads(buf)
            except ValueError:
                res = {'fails': ['crash'], 'end': 'crash', 'obs': None, 'covers': []}
        os.write(out, (json.dumps(res) + '\n').encode())


main()
