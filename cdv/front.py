"""Frontend: /repo C sources -> clang JSON AST -> light-weight program database.

Nothing is rewritten: the AST of the real translation unit, as configured by the
real build (GMP integers, isl backend, no OSL), is what the engine executes.
The only thing substituted is <gmp.h> (see shim/gmp.h)."""
import json, os, re, subprocess, tempfile, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CDV_REPO', '/repo')
CLANG = '/usr/bin/clang'

UNITS = ['block', 'clast', 'int', 'loop', 'matrix', 'names', 'options', 'pprint',
         'program', 'state', 'statement', 'stride', 'union_domain', 'util', 'input',
         'isl/constraints', 'isl/domain', 'isl/backend', 'cloog']


class ToolLimit(Exception):
    pass


def gen_includes(d):
    """Generate the configure-time headers from the repository's own templates."""
    inc = os.path.join(d, 'cloog')
    os.makedirs(inc, exist_ok=True)
    t = open(os.path.join(REPO, 'include/cloog/int.h.in')).read()
    open(os.path.join(inc, 'int.h'), 'w').write(t.replace('@CLOOG_INT_CONFIGURE@', 'CLOOG_INT_GMP'))
    t = open(os.path.join(REPO, 'include/cloog/version.h.in')).read()
    for k, v in (('MAJOR', '0'), ('MINOR', '21'), ('REVISION', '1')):
        t = t.replace('@VERSION_%s@' % k, v)
    open(os.path.join(inc, 'version.h'), 'w').write(t)


# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'a', 'n')

    def __init__(self, k, a=None, n=None):
        self.k, self.a, self.n = k, a, n

    def key(self):
        if self.k in ('ptr',):
            return 'ptr(%s)' % self.a.key()
        if self.k == 'array':
            return 'array(%s,%s)' % (self.a.key(), self.n)
        if self.k == 'struct':
            return 'struct ' + self.a
        return self.k if self.a is None else '%s:%s' % (self.k, self.a)

    def __repr__(self):
        return self.key()

    def __eq__(self, o):
        return isinstance(o, T) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


INT = T('int'); VOID = T('void'); MPZ = T('mpz'); FUNC = T('func'); DBL = T('double')
CHAR = T('char')
INTWORDS = {'int', 'unsigned', 'long', 'short', 'signed', 'size_t', 'isl_bool', '_Bool', 'isl_size', 'isl_stat',
            'bool'}


class DB:
    def __init__(self):
        self.funcs = {}      # name -> FunctionDecl json (with body)
        self.fileof = {}     # name -> unit
        self.decls = {}      # name -> FunctionDecl json (any)
        self.records = {}    # struct name -> list[(field, T)]
        self.typedefs = {}   # name -> string
        self.enums = {}      # const -> int
        self.globals = {}    # name -> (T, init json or None, isconst)
        self.tcache = {}
        self.statics = {}

    # -------------------------------------------------- type strings
    def ty(self, s):
        r = self.tcache.get(s)
        if r is None:
            r = self.tcache[s] = self._ty(s)
        return r

    def _ty(self, s):
        s = re.sub(r'\b(const|volatile|restrict|__restrict|extern|static|inline|register)\b', ' ', s).strip()
        s = re.sub(r'\s+', ' ', s)
        if s in ('mpz_t', 'cloog_int_t', '__mpz_struct', '__mpz_struct[1]', 'mpz_struct'):
            return MPZ
        if '(' in s and not s.startswith('struct (unnamed') and 'unnamed' not in s:
            m = re.search(r'\(\*+\)?', s)
            i = s.find('(')
            if s[i:i + 2] == '(*':
                stars = len(re.match(r'\(\**', s[i:]).group(0)) - 1
                t = FUNC
                for _ in range(stars):
                    t = T('ptr', t)
                return t
            return FUNC
        if s.endswith('*'):
            return T('ptr', self.ty(s[:-1]))
        m = re.match(r'^(.*?)\s*\[(\d*)\]((?:\[\d*\])*)$', s)
        if m:
            el = self.ty(m.group(1) + m.group(3))
            return T('array', el, int(m.group(2)) if m.group(2) else None)
        if s.startswith('struct '):
            return T('struct', s[7:])
        if s.startswith('enum '):
            return INT
        if s.startswith('union '):
            return T('struct', s[6:])
        if s == 'void':
            return VOID
        if s in ('char', 'unsigned char', 'signed char'):
            return CHAR
        if s in ('float', 'double', 'long double'):
            return DBL
        if s in self.typedefs:
            return self.ty(self.typedefs[s])
        if all(w in INTWORDS for w in s.split()):
            return INT
        if s in self.records:
            return T('struct', s)
        return T('opaque', s)

    # -------------------------------------------------- loading
    def load_unit(self, unit, root):
        self._curfile = None
        for n in root['inner']:
            k = n['kind']
            loc = n.get('loc', {})
            self._track(loc)
            if k == 'TypedefDecl':
                self.typedefs.setdefault(n['name'], n['type']['qualType'])
                # typedef of anonymous struct
                for i in n.get('inner', []):
                    pass
            elif k == 'RecordDecl':
                self._record(n)
            elif k == 'EnumDecl':
                v = -1
                for c in n.get('inner', []):
                    if c['kind'] != 'EnumConstantDecl':
                        continue
                    x = self._constval(c)
                    v = x if x is not None else v + 1
                    self.enums[c['name']] = v
            elif k == 'FunctionDecl':
                self.decls.setdefault(n['name'], n)
                if any(i['kind'] == 'CompoundStmt' for i in n.get('inner', [])):
                    if self._infile(n, unit):
                        self.funcs[n['name']] = n
                        self.fileof[n['name']] = unit
                        n['_unit'] = unit
            elif k == 'VarDecl':
                if n.get('init') or n['name'] not in self.globals:
                    init = None
                    for i in n.get('inner', []):
                        if 'Expr' in i['kind'] or 'Literal' in i['kind'] or i['kind'] == 'UnaryOperator':
                            init = i
                    self.globals[n['name']] = (n['type']['qualType'], init, unit)

    def _track(self, loc):
        pass

    def _infile(self, n, unit):
        # functions with bodies from system headers (inline) are ignored
        l = n.get('loc', {})
        f = l.get('file') or l.get('spellingLoc', {}).get('file') or l.get('expansionLoc', {}).get('file')
        return n.get('_file', '').endswith('.c') or '/repo' in n.get('_file', '') or n.get('_file', '').startswith(REPO)

    def _record(self, n):
        if not n.get('completeDefinition'):
            return
        name = n.get('name')
        if not name:
            return
        fs = []
        for i in n.get('inner', []):
            if i['kind'] == 'FieldDecl':
                fs.append((i.get('name', '_anon%d' % len(fs)), i['type']['qualType']))
            elif i['kind'] == 'RecordDecl':
                self._record(i)
        self.records[name] = fs

    def _constval(self, n):
        for i in n.get('inner', []):
            if i['kind'] in ('ConstantExpr', 'ImplicitCastExpr', 'IntegerLiteral') and 'value' in i:
                return int(i['value'])
            r = self._constval(i)
            if r is not None:
                return r
        return None

    def fields(self, sname):
        if sname not in self.records:
            raise ToolLimit('unknown struct ' + sname)
        return [(f, self.ty(q)) for f, q in self.records[sname]]

    def flat(self, sname, prefix=''):
        """flattened scalar field list [(path, T)]"""
        key = ('flat', sname)
        if key not in self.statics:
            out = []
            for f, t in self.fields(sname):
                if t.k == 'struct':
                    out += [(f + '.' + p, tt) for p, tt in self.flat(t.a)]
                else:
                    out.append((f, t))
            self.statics[key] = out
        return self.statics[key]

    def first_prefix(self, sname, target):
        """path prefix of first members leading from struct sname to struct target, or None"""
        if sname == target:
            return ''
        fs = self.fields(sname)
        if fs and fs[0][1].k == 'struct':
            p = self.first_prefix(fs[0][1].a, target)
            if p is not None:
                return fs[0][0] + '.' + p
        return None


def annotate(root):
    """propagate file/line (clang's JSON omits repeated values)"""
    cur = {'file': '', 'line': 0}

    def upd(l):
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l:
                upd(l[k])
        if 'file' in l:
            cur['file'] = l['file']
        if 'line' in l:
            cur['line'] = l['line']

    def go(n):
        if 'loc' in n:
            upd(n['loc'])
        r = n.get('range')
        if r:
            upd(r.get('begin', {}))
            n['_line'] = cur['line']
            n['_file'] = cur['file']
            upd(r.get('end', {}))
        for i in n.get('inner', ()):
            if i:
                go(i)
    import sys
    sys.setrecursionlimit(100000)
    go(root)


def load(units=None, repo=None):
    global REPO
    if repo:
        REPO = repo
    db = DB()
    with tempfile.TemporaryDirectory(prefix='cdv') as d:
        gen_includes(d)
        procs = []
        for u in units or UNITS:
            src = os.path.join(REPO, 'source', u + '.c')
            out = open(os.path.join(d, u.replace('/', '_') + '.json'), 'w')
            cmd = [CLANG, '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w',
                   '-DISL_USING_GMP_VAL=1', '-DCLOOG_RUSAGE=/**/', '-DHAVE_DECL_MP_GET_MEMORY_FUNCTIONS=1',
                   '-I' + os.path.join(HERE, 'shim'), '-I' + d, '-I' + os.path.join(REPO, 'include'),
                   '-I' + os.path.join(d, 'cloog', 'x'), src]
            # "../include/cloog/cloog.h" includes "cloog/int.h": found through -I d
            procs.append((u, subprocess.Popen(cmd, stdout=out, stderr=subprocess.PIPE), out))
        for u, p, out in procs:
            err = p.communicate()[1].decode()
            out.close()
            if p.returncode != 0:
                raise ToolLimit('clang failed on %s:\n%s' % (u, err[:3000]))
        for u, p, out in procs:
            root = json.load(open(out.name))
            annotate(root)
            db.load_unit(u, root)
    return db


def src_hash(db, fn):
    f = db.funcs[fn]
    return hashlib.sha1(json.dumps(strip(f), sort_keys=True).encode()).hexdigest()


def strip(n):
    if isinstance(n, dict):
        return {k: strip(v) for k, v in n.items() if k not in ('id', 'loc', 'range', '_line', '_file', 'previousDecl', 'referencedDecl') or (k == 'referencedDecl' and False)}
    if isinstance(n, list):
        return [strip(x) for x in n]
    return n


if __name__ == '__main__':
    import time
    t = time.time()
    db = load()
    print(len(db.funcs), 'functions', time.time() - t)
    print(db.flat('clast_for'))
    print(db.ty('struct clast_expr *[1]'), db.ty('int (*)(struct isl_constraint *, void *)'), db.ty('CloogLoop **'), db.ty('cloog_int_t *'))
    print({k: v[0] for k, v in db.globals.items()})
    kinds = {}
    def w(n):
        kinds[n['kind']] = kinds.get(n['kind'], 0) + 1
        for i in n.get('inner', []):
            if i: w(i)
    for f in db.funcs.values(): w(f)
    print(kinds)
