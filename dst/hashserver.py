"""Executes loops in processes with another hash seed (C15, C16): one fork per request, ends when its standard input is closed."""
import sys, os, json, socket, struct, select, signal, gc, traceback
from . import cl2, cl3, load
def main(path):
    dm = load.load(); srv = socket.socket(socket.AF_UNIX); srv.bind(path + '.tmp'); srv.listen(64); os.rename(path + '.tmp', path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN); gc.collect(); gc.freeze()
    while True:
        r, _, _ = select.select([srv, 0], [], [])
        if 0 in r and not os.read(0, 1): return
        if srv not in r: continue
        c, _ = srv.accept()
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL); signal.alarm(120)
            f = c.makefile('rb'); n = struct.unpack('>I', f.read(4))[0]
            try: q = json.loads(f.read(n)); r = cl3.remote(dm, q) if q.get('kind') == 'model' else cl2.disturbed(dm, q)
            except BaseException: r = {'error': traceback.format_exc()[-2500:]}
            b = json.dumps(r).encode(); c.sendall(struct.pack('>I', len(b)) + b); os._exit(0)
        c.close()
main(sys.argv[1])
