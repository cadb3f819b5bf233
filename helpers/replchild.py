"""A process with a REPL server, driven by lines on its standard input (helper of C28)."""
import sys, json, threading, rlcompleter
sys.path.insert(0, sys.argv[1])
from unpythonic.net import server
ns = {}
orig = (sys.stdin, sys.stdout, sys.stderr)
out = sys.stdout
def reply(x):
    out.write("@@" + json.dumps(x) + "\n"); out.flush()
def prompts(): return [getattr(sys, "ps1", None), getattr(sys, "ps2", None)]
reply("ready")
for line in orig[0]:
    cmd = json.loads(line)
    k = cmd[0]
    try:
        if k == "start":
            ns.clear(); ns.update(cmd[3])
            reply(["ok", server.start(locals=ns, repl_port=cmd[1], control_port=cmd[2], banner="")])
        elif k == "stop": server.stop(); reply(["ok"])
        elif k == "state":
            reply(["ok", [a is b for a, b in zip((sys.stdin, sys.stdout, sys.stderr), orig)], prompts(), sorted(server._active_sessions) if hasattr(server, "_active_sessions") else None])
        elif k == "say":
            print(cmd[1]); print(cmd[2], file=sys.stderr)
            t = threading.Thread(target=lambda: print(cmd[3])); t.start(); t.join()
            sys.stdout.flush(); sys.stderr.flush()
            reply(["ok"])
        elif k == "complete":
            c = rlcompleter.Completer(ns)
            reply(["ok", [c.complete(cmd[1], i) for i in range(cmd[2] + 1)][cmd[2]]])
        elif k == "eval":
            reply(["ok", eval(cmd[1], ns)])
        elif k == "exit": reply(["ok"]); break
    except Exception as e:
        reply(["exc", type(e).__name__, str(e)])
