"""C26: which calls can change the file system or start a program."""
import ast

from .source import Project

# modules whose use is an effect, and the functions of others that are
MODULES = {'shutil', 'subprocess', 'tempfile', 'zipfile', 'tarfile', 'shelve',
           'dbm', 'sqlite3', 'socket', 'ctypes', 'multiprocessing', 'ftplib',
           'urllib', 'http', 'smtplib', 'pickle', 'fileinput'}
READING = {('pickle', 'loads'), ('pickle', 'dumps'), ('shutil', 'which'),
           ('shutil', 'get_terminal_size'), ('fileinput', 'input'),
           ('urllib', 'parse')}
OS = {'remove', 'unlink', 'rename', 'renames', 'replace', 'rmdir',
      'removedirs', 'mkdir', 'makedirs', 'system', 'popen', 'truncate',
      'link', 'symlink', 'chmod', 'chown', 'utime', 'kill', 'write', 'fork',
      'execv', 'execve', 'execvp', 'spawnl', 'spawnv', 'mkfifo', 'startfile',
      'ftruncate', 'lchown', 'mknod', 'posix_spawn', 'execl', 'execlp',
      'execle', 'execvpe', 'spawnlp', 'spawnvp', 'spawnle', 'spawnve',
      'sendfile', 'pwrite', 'writev', 'lchmod', 'fchmod', 'fchown',
      'setxattr', 'removexattr', 'forkpty', 'copy_file_range'}
PATH_METHODS = {'write_text', 'write_bytes', 'unlink', 'touch', 'rmdir',
                'rename', 'mkdir', 'symlink_to', 'hardlink_to', 'link_to'}
# (module, what): the two writes the tools are for
ALLOWED = {'listing': {'w', 'wt', 'w+'}, 'genpages': {'a', 'at', 'a+'}}


class Scan:
    def __init__(self):
        self.project = Project()
        self.violations = {}
        self.calls = 0
        self.opens = []
        self.local = {}

    def report(self, m, n, what):
        self.violations.setdefault('%s: %s' % (m.rel, what), []).append(
            '%s:%d' % (m.rel, n.lineno))

    def imports(self, m):
        """Import statements anywhere in the module, by bound name."""
        if m.rel not in self.local:
            out = self.local[m.rel] = {}
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        x = a.asname or a.name.split('.')[0]
                        out.setdefault(x, []).append(n)
        return self.local[m.rel]

    def origin(self, m, e):
        """Dotted name a callee comes from, through imports."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == 'getattr' and len(e.args) > 1 and \
                isinstance(e.args[1], ast.Constant):
            o = self.origin(m, e.args[0])
            return o and '%s.%s' % (o, e.args[1].value)
        if isinstance(e, ast.Name):
            for b in self.imports(m).get(e.id, []) + \
                    list(m.bindings.get(e.id, ())):
                if isinstance(b, ast.Import):
                    for a in b.names:
                        if a.asname == e.id:
                            return a.name
                        if not a.asname and a.name.split('.')[0] == e.id:
                            return e.id
                elif isinstance(b, ast.ImportFrom) and not b.level:
                    for a in b.names:
                        if (a.asname or a.name) == e.id:
                            return '%s.%s' % (b.module, a.name)
                else:
                    return None
            return 'builtins.' + e.id
        if isinstance(e, ast.Attribute):
            o = self.origin(m, e.value)
            return o and '%s.%s' % (o, e.attr)
        return None

    def mode(self, n, pos):
        for k in n.keywords:
            if k.arg == 'mode':
                return k.value
            if k.arg is None:
                return None
        if len(n.args) > pos:
            return n.args[pos]
        return ast.Constant(value='r')

    def opened(self, m, n, pos):
        e = self.mode(n, pos)
        modes = set()

        def add(e):
            if isinstance(e, ast.Constant) and isinstance(e.value, str):
                modes.add(e.value)
            elif isinstance(e, ast.IfExp):
                add(e.body)
                add(e.orelse)
            else:
                modes.add('?')
        if e is not None:
            add(e)
        self.opens.append('%s:%d open mode %s' % (m.rel, n.lineno,
                                                  '/'.join(sorted(modes))))
        for x in modes:
            if any(c in x for c in 'wax+') and \
                    x not in ALLOWED.get(m.name, ()):
                self.report(m, n, 'opens a file with mode %r' % x)

    def effect(self, o):
        """Is the function of that name an effect?"""
        p = o.split('.')
        if p[0] in MODULES and len(p) > 1:
            return (p[0], p[1]) not in READING
        if p[0] in ('os', 'posix') and len(p) == 2:
            return p[1] in OS or p[1] == 'open'
        return o in ('builtins.exec', 'builtins.eval', 'builtins.__import__',
                     'importlib.import_module')

    def scan(self, m):
        callees = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                callees.add(n.func)
        for n in ast.walk(m.tree):
            # functions that are passed on or given another name
            if isinstance(n, (ast.Name, ast.Attribute)) and \
                    n not in callees and isinstance(n.ctx, ast.Load):
                o = self.origin(m, n)
                if o and self.effect(o) and isinstance(n, ast.Attribute):
                    self.report(m, n, 'uses ' + o)
                elif o and self.effect(o):
                    self.report(m, n, 'uses ' + o)
            if not isinstance(n, ast.Call):
                continue
            self.calls += 1
            o = self.origin(m, n.func)
            if o in ('builtins.open', 'io.open', 'codecs.open'):
                self.opened(m, n, 1)
                continue
            if o and self.effect(o):
                self.report(m, n, 'calls ' + o)
            if isinstance(n.func, ast.Attribute) and \
                    (o is None or o.startswith('pathlib.')):
                if n.func.attr == 'write_text' and m.name == 'listing':
                    self.opens.append('%s:%d write_text' % (m.rel, n.lineno))
                elif n.func.attr in PATH_METHODS and self.paths(m):
                    self.report(m, n, 'calls .%s()' % n.func.attr)
                elif n.func.attr == 'open' and self.paths(m):
                    self.opened(m, n, 0)

    def paths(self, m):
        """The module uses pathlib."""
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import) and any(
                    a.name == 'pathlib' for a in n.names) or \
                    isinstance(n, ast.ImportFrom) and n.module == 'pathlib':
                return True
        return False


def run():
    s = Scan()
    for m in s.project.modules.values():
        s.scan(m)
    return {
        'violations': [{'label': k, 'constructs': v}
                       for k, v in sorted(s.violations.items())],
        'obligations': s.calls,
        'rule': 'no call site of the package or the tools opens a file for '
                'writing, appending or updating, removes, renames or creates '
                'files, or starts a program, other than the listing file of '
                'tools/listing.py and the append of tools/genpages.py',
        'analysed': {'modules': len(s.project.modules),
                     'call_sites': s.calls, 'opens': len(s.opens)},
        'sites': s.opens}
