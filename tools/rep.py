"""rep.py FILE: apply old/new replacements, keeping the file's line endings.
usage: from rep import edit; edit(path, [(old, new), ...])"""
def edit(path, pairs):
    s = open(path, newline="", encoding="utf-8").read()
    crlf = s.count("\r\n") > s.count("\n") / 2
    for a, b in pairs:
        if crlf:
            a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        assert s.count(a) == 1, (s.count(a), a)
        s = s.replace(a, b)
    open(path, "w", newline="", encoding="utf-8").write(s)
