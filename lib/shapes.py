"""Private names of /repo that a refactoring gave other names.

The harness uses some unexported names. shapes.json has the declarations of the
pinned tree; when the harness does not compile because a name is gone, the name
is looked for among the new names of the same type by what it is declared as,
and the harness is adapted where the compiler points."""
import json, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
TOOL = os.path.join(HERE, '..', 'harness', 'tools', 'shapes.go')
TABLE = os.path.join(HERE, 'shapes.json')
PKGS = ['cmd', 'config', 'crypto', 'crypto/base58', 'crypto/edwards25519', 'cryptonote', 'encoding/binary', 'p2p', 'utils']


def shapes(repo, pkg, env):
    r = subprocess.run(['go', 'run', os.path.abspath(TOOL), os.path.join(repo, pkg)], cwd='/', env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
    return json.loads(r.stdout) if r.returncode == 0 else {}


def rename(s, ren):
    return re.sub(r'(?<![\w.])\w+', lambda m: ren.get(m.group(0), m.group(0)), s)


class Names:
    def __init__(self, repo, env):
        self.repo, self.env, self.cache = repo, env, {}
        self.old = json.load(open(TABLE))

    def pkg(self, pkg):
        if pkg in self.cache:
            return self.cache[pkg]
        old, new = self.old.get(pkg, {}), shapes(self.repo, pkg, self.env)
        types = {}
        gone = [t for t in old if t and t not in new]
        fresh = [t for t in new if t and t not in old]

        def kinds(ms, name):
            return sorted(rename(s, {name: 'T'}) for _, s in ms)
        for t in gone:
            best, val = None, 0.5
            for u in fresh:
                if u in types.values():
                    continue
                a, b = kinds(old[t], t), kinds(new[u], u)
                c, both = list(b), 0
                for x in a:
                    if x in c:
                        c.remove(x)
                        both += 1
                v = (2 * both + 1) / (len(a) + len(b) + 1)
                if v > val:
                    best, val = u, v
            if best:
                types[t] = best
        members = {}
        for t in old:
            u = types.get(t, t)
            if u not in new:
                continue
            have, had = {n for n, _ in new[u]}, {n for n, _ in old[t]}
            free = [(n, s) for n, s in new[u] if n not in had]
            miss = [(n, rename(s, types)) for n, s in old[t] if n not in have]
            for n, s in miss:
                same = [m for m, z in free if z == s]
                alike = [m for m, z in miss if z == s]
                if len(same) == len(alike):
                    members[u, n] = same[alike.index(n)]
                elif same:
                    # the one that has most of the name
                    members[u, n] = max(same, key=lambda m: (sum(1 for i in range(len(n)) if n[i:i + 3].lower() in m.lower()), -same.index(m)))
        # methods of what an interface's type or an alias stands for keep the name of the interface's
        plain = dict(types)
        for (t, n), m in list(members.items()):
            if t == '':
                plain[n] = m
        self.cache[pkg] = (members, plain)
        return self.cache[pkg]

    def find(self, pkg, typ, name):
        members, plain = self.pkg(pkg)
        if typ is None:
            return plain.get(name)
        typ = typ.lstrip('*').split('.')[-1]
        typ = typ if (typ, name) in members else plain.get(typ, typ)
        if (typ, name) in members:
            return members[typ, name]
        # a member of something embedded
        c = {m for (t, n), m in members.items() if n == name and t}
        return c.pop() if len(c) == 1 else None

    def adapt(self, output, pkg, hd):
        """Replaces the names the compiler complains about; True if any was."""
        edits = {}
        for m in re.finditer(r'(?m)^(\S*?(zz_verif_\w+\.go)):(\d+):(\d+): (.*)$', output):
            line, col, msg = int(m.group(3)), int(m.group(4)), m.group(5)
            typ = name = None
            x = re.search(r'undefined \(type (\S+) has no field or method (\w+)', msg)
            y = re.match(r'unknown field (\w+) in struct literal of type (\S+)', msg)
            z = re.match(r'undefined: (\w+)$', msg)
            if x:
                typ, name = x.group(1), x.group(2)
            elif y:
                typ, name = y.group(2), y.group(1)
            elif z:
                name = z.group(1)
            else:
                continue
            to = self.find(pkg, typ, name)
            if to:
                edits.setdefault(m.group(2), set()).add((line, col, name, to))
        done = False
        for f, es in edits.items():
            path = os.path.join(hd, f)
            lines = open(path, 'rb').read().split(b'\n')
            for line, col, name, to in sorted(es, reverse=True):
                l = lines[line - 1]
                at = l.find(name.encode(), max(0, col - 1))
                if at < 0:
                    continue
                lines[line - 1] = l[:at] + to.encode() + l[at + len(name.encode()):]
                done = True
            open(path, 'wb').write(b'\n'.join(lines))
        return done


if __name__ == '__main__':
    from vlib import go_env, REPO
    json.dump({p: shapes(REPO, p, go_env()) for p in PKGS}, open(TABLE, 'w'), indent=0, sort_keys=True)
