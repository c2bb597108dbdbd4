"""A second interpreter with another hash seed: runs a chain given on stdin, answers with its log."""
import json
import os
import subprocess
import sys


class Peer:
    def __init__(self, hashseed):
        from dst.run import child_env, VERIF
        self.p = subprocess.Popen([sys.executable, '-m', 'dst.peer'], cwd=VERIF, env=child_env(hashseed),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def ask(self, req):
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('peer interpreter died')
        return json.loads(line)


_peers = {}


def peer(hashseed):
    if hashseed not in _peers:
        _peers[hashseed] = Peer(hashseed)
    return _peers[hashseed]


def main():
    from dst import world, chains
    world.boot()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        r = json.loads(line)
        try:
            os.makedirs(r['dir'], exist_ok=True)
            os.chdir(r['dir'])
            world.reset(r['npseed'], r['precision'])
            log, _, _ = chains.run('p.yml')
            ans = dict(log=log)
        except Exception as e:
            ans = dict(error=repr(e))
        os.chdir('/')
        out.write(json.dumps(ans) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
