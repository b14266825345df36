import json, subprocess, sys
class Client:
    def __init__(self, caps={}):
        self.p = subprocess.Popen([sys.argv[1]], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.n = 0; self.got = []
        self.init = self.request("initialize", {"capabilities": caps})
        self.notify("initialized", {})
    def send(self, m):
        b = json.dumps(m).encode(); self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b); self.p.stdin.flush()
    def recv(self):
        n = 0
        while True:
            l = self.p.stdout.readline()
            if not l: return None
            l = l.strip()
            if not l: break
            if l.lower().startswith(b"content-length:"): n = int(l.split(b":")[1])
        return json.loads(self.p.stdout.read(n))
    def notify(self, method, params): self.send({"jsonrpc": "2.0", "method": method, "params": params})
    def request(self, method, params=None):
        self.n += 1; self.send({"jsonrpc": "2.0", "id": self.n, "method": method, "params": params})
        while True:
            m = self.recv()
            assert m is not None, "server gone"
            if m.get("id") == self.n: return m
            self.got.append(m)
    def open(self, uri, text): self.notify("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "wat", "version": 1, "text": text}})
    def change(self, uri, *texts): self.notify("textDocument/didChange", {"textDocument": {"uri": uri, "version": 2}, "contentChanges": [{"text": t} for t in texts]})
    def close(self, uri): self.notify("textDocument/didClose", {"textDocument": {"uri": uri}})
    def quit(self):
        r = self.request("shutdown"); self.notify("exit", None); self.p.stdin.close(); return self.p.wait(10)

