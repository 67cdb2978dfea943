import re


def with_main(text):
    """append a main that calls every corpus function, so that all are emitted"""
    out, used = [], set()
    for m in re.finditer(r"^fn (c_\w+)\(([^)]*)\):(\S+) \{", text, re.M):
        a = []
        for p in [x.strip() for x in m.group(2).split(",") if x.strip()]:
            t = p.rsplit(" ", 1)[0]
            used.add(t)
            a.append("v_" + t)
        out.append("    %s(%s)%s" % (m.group(1), ", ".join(a), " catch e {\n    }" if m.group(3).endswith("!") else ""))
    decl = ["    %s v_%s = %s" % (t, t, "true" if t == "bool" else "1.0" if t.startswith("f") else "1") for t in sorted(used)]
    return text + "\nfn main():void {\n" + "\n".join(decl + out) + "\n}\n"
