"""Compile the analysed sources to bitcode and dump the normalised IR as JSON.

Nothing is executed: clang only translates, irdump only rewrites and prints.
Results are kept in /verif/build keyed by the content of every input, so a check
always works on the current sources."""
import hashlib, json, os, pickle, re, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++-18'


class BuildError(Exception):
    pass


def repo(*p):
    return os.path.join(REPO, 'src', 'tinymesh', *p)


def sources():
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'src', 'tinymesh'))):
        if os.sep + 'ext' in d[len(REPO):]:
            continue
        for f in sorted(fs):
            if f.endswith('.cpp') and f != 'external.cpp':
                out.append(os.path.relpath(os.path.join(d, f), os.path.join(REPO, 'src', 'tinymesh')))
    return out


_tree = None


def tree_hash():
    """Hash of everything the dumps depend on."""
    global _tree
    if _tree:
        return _tree
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'tools', 'irdump')]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds[:] = sorted(x for x in ds if x not in ('.git', '__pycache__'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    h.update(REPO.encode())
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    _tree = h.hexdigest()[:24]
    return _tree


_hdr = None


def header_hash():
    """Hash of every header (and of the translation settings) a translation unit may depend on."""
    global _hdr
    if _hdr:
        return _hdr
    h = hashlib.sha256()
    for r in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'tools', 'irdump')):
        for d, ds, fs in sorted(os.walk(r)):
            ds[:] = sorted(x for x in ds if x not in ('.git', '__pycache__'))
            for f in sorted(fs):
                if not f.endswith('.cpp') or 'irdump' in f or 'external' in f:
                    h.update(content(os.path.join(d, f)))
    h.update(content(os.path.abspath(__file__)))
    _hdr = h.hexdigest()
    return _hdr


def content(p):
    with open(p, 'rb') as fh:
        return p.encode() + hashlib.sha256(fh.read()).digest()


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), (r.stderr or r.stdout)[-4000:]))
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def ensure_irdump():
    src = os.path.join(VERIF, 'tools', 'irdump', 'irdump.cpp')
    with open(src, 'rb') as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'irdump-' + tag)
    if os.path.exists(exe):
        return exe
    with Lock('irdump'):
        if not os.path.exists(exe):
            flags = sh(['llvm-config-18', '--cxxflags', '--ldflags']).split()
            sh([CLANG, '-O1', '-std=c++17', src, '-o', exe + '.tmp'] + flags + ['-fexceptions', '-lLLVM-18'])
            os.rename(exe + '.tmp', exe)
    return exe


def base_flags():
    return ['-std=c++17', '-O2', '-Xclang', '-disable-llvm-passes', '-Xclang', '-mno-constructor-aliases', '-DEIGEN_NO_DEBUG', '-fno-delete-null-pointer-checks', '-g', '-w',
            '-I' + os.path.join(VERIF, 'stubs'), '-I' + os.path.join(REPO, 'src'),
            '-I' + os.path.join(REPO, 'src', 'tinymesh'), '-I/usr/include/eigen3', '-I/usr/include']


# ---- what is inlined from the libraries: element access of small fixed-size objects
INLINE_ALSO = [
    r'std::array<(double|float|int|unsigned int|unsigned long|Vec<(double|float), [234]>), [0-9]+ul>::',
    r'std::__array_traits<',
    r'std::initializer_list<.*>::',
    r'^(double|float)(&| const&)? ?\*? ?(const&|&)? ?std::(min|max|forward|move|abs|__addressof|addressof)<?',
    r'std::(min|max)<(double|float|int|unsigned int|unsigned long)>',
    r'std::(abs|sqrt|fabs|atan2|acos|cos|sin|exp|pow|log|floor|ceil|isnan|isinf)\(',
    r'std::(fill|__fill_a|__fill_a1|copy|__copy_move_a|__copy_move_a1|__copy_move_a2|__niter_base|__niter_wrap|__miter_base|__copy_move|fill_n|__fill_n_a|__iterator_category|__size_to_integer|min|max)<',
    r'std::__copy_move<',
    r'std::(swap)<(double|float|int|unsigned int|tinymesh::[A-Za-z]+\*)>',
    r'std::(move|forward|addressof|__addressof|as_const|get|__get_helper)<',
    r'std::remove_reference<.*>::type&& std::move<',
    r'(^|[ &*])__gnu_cxx::__normal_iterator<.*>::',
    r'__gnu_cxx::operator(==|!=|-|<)<',
    r'std::pair<(unsigned int|int|double|unsigned long), (unsigned int|int|double|unsigned long)>::',
    r'Eigen::.*Matrix<(double|float), [234], 1, 0, [234], 1>',
    r'Eigen::DenseStorage<(double|float), [234], [234], 1, 0>::',
    r'Eigen::internal::plainobjectbase_evaluator_data<(double|float), 0>::',
    r'Eigen::internal::(ignore_unused_variable|plain_array|check_static_allocation_size|variable_if_dynamic|noncopyable|evaluator_base)',
]
# Eigen code mentioning dynamic sizes or products stays a black box
NO_INLINE = [r'Eigen::.*-1', r'Eigen::.*[Pp]roduct', r'Eigen::internal::.*redux', r'Eigen::.*(CommaInitializer|IOFormat|Reshaped|Block<|CwiseBinaryOp|CwiseUnaryOp|Transpose|SelfAdjoint)']

# reporting helpers: modelled by name
REPORTING = [r'(^|[ :])(Print|Info|Debug|Warn|Error|STR_FMT)<', r'(^|[ :])(Print|Info|Debug|Warn|Error|STR_FMT|ASRT_LABEL)(\(|\[)',
             r'PrintStream::', r'ProgressBar::']

# public operations that are analysed on their own and referred to by name elsewhere
API_OPAQUE = [
    r'tinymesh::Vertex::(isBoundary|degree|normal|volonoiArea|K|H)\(',
    r'tinymesh::Face::(isBoundary|isHole|isLocked|area|normal|numCorners|toTriangle)\(',
    r'tinymesh::Halfedge::(length|cotWeight)\(',
    r'tinymesh::Mesh::(flipHE|splitHE|collapseHE|collapseFace|verify|getMean[A-Za-z]*|numEdges|fillHoles|load|save|clone|getVertices|getVertexIndices|Mesh|construct|(load|save)(OBJ|PLY)|addNewTriangle|holeFill\w*_|(add|remove)(Vertex|Halfedge|Face))\(',
    r'tinymesh::Triangle::(distance|closestPoint|bounds)\(',
    r'tinymesh::BVH::(distance|closestPoint|construct|BVH)\(',
]




def api_opaque_list():
    """the above and the free operations the headers declare (helpers of one source file are not among them)"""
    names = set()
    for d, _, fs in os.walk(repo()):
        for f in fs:
            if f.endswith('.h'):
                with open(os.path.join(d, f), errors='replace') as fh:
                    names |= set(re.findall(r'\b((?:smooth|implicitFairing|denoise|remesh|simplify|holeFill|get[A-Z])[A-Za-z0-9]*) *\(', fh.read()))
    alt = '|'.join(sorted(names))
    return API_OPAQUE + ([r'^(.* )?tinymesh::(%s)\(' % alt] if alt else [])


def compile_tu(src, out, extra=()):
    sh([CLANG] + base_flags() + list(extra) + ['-emit-llvm', '-c', src, '-o', out])


def dump(name, tus=None, harness=(), opaque=(), inline_also=(), cxxflags=(), opts=(), api_opaque=True, defines=()):
    """Return the dump (as a dict) for the given configuration."""
    exe = ensure_irdump()
    if tus is None:
        tus = sources()
    cfg = json.dumps([name, sorted(tus), sorted(harness), list(opaque), list(inline_also), list(cxxflags), list(opts),
                      api_opaque, INLINE_ALSO, NO_INLINE, REPORTING, api_opaque_list()])
    hh = b''.join(content(os.path.join(VERIF, 'harness', t)) for t in sorted(harness))
    key = hashlib.sha256((tree_hash() + cfg).encode() + hh).hexdigest()[:24]
    outp = os.path.join(BUILD, '%s-%s.pkl' % (name, key))
    try:
        with open(outp, 'rb') as f:
            return pickle.load(f)
    except FileNotFoundError:
        pass
    with Lock(name):
        if os.path.exists(outp):
            with open(outp, 'rb') as f:
                return pickle.load(f)
        work = os.path.join(BUILD, 'work-%s-%d' % (name, os.getpid()))
        os.makedirs(work, exist_ok=True)
        try:
            jobs = []
            for t in tus:
                p = repo(t)
                if not os.path.exists(p):
                    raise BuildError('source file vanished: ' + p)
                jobs.append((p, os.path.join(work, t.replace('/', '_') + '.bc')))
            for t in harness:
                jobs.append((os.path.join(VERIF, 'harness', t), os.path.join(work, 'h_' + t.replace('/', '_') + '.bc')))
            args = []
            inl = list(INLINE_ALSO) + list(inline_also)
            for r in inl:
                args += ['--inline-also', r]
            for r in NO_INLINE:
                args += ['--no-inline', r]
            ops = list(REPORTING) + (api_opaque_list() if api_opaque else []) + list(opaque)
            for r in ops:
                args += ['--opaque', r]
            srcs = ['--src', os.path.join(REPO, 'src') + '/', '--src', os.path.join(VERIF, 'harness') + '/']

            tud = os.path.join(BUILD, 'tu')
            os.makedirs(tud, exist_ok=True)

            def one(j):
                k = hashlib.sha256((header_hash() + json.dumps([args, list(cxxflags), srcs])).encode() + content(j[0])).hexdigest()[:32]
                c = os.path.join(tud, k + '.bc')
                try:
                    os.utime(c)
                except OSError:
                    compile_tu(j[0], j[1] + '.full', cxxflags)
                    sh([exe] + srcs + args + ['--reduce', '-o', j[1], j[1] + '.full'])
                    os.unlink(j[1] + '.full')
                    os.rename(j[1], c)
                return c
            with ThreadPoolExecutor(8) as ex:
                bcs = list(ex.map(one, jobs))
            js = os.path.join(work, 'out.json')
            sh([exe] + srcs + args + list(opts) + ['-o', js] + bcs)
            with open(js) as f:
                d = json.load(f)
            with open(outp + '.tmp', 'wb') as f:
                pickle.dump(d, f, protocol=4)
            os.rename(outp + '.tmp', outp)
        finally:
            for f in os.listdir(work):
                os.unlink(os.path.join(work, f))
            os.rmdir(work)
        # drop units not used for half an hour, which no other run can be about to link
        for f in os.listdir(tud):
            p = os.path.join(tud, f)
            try:
                if os.stat(p).st_mtime < time.time() - 1800:
                    os.unlink(p)
            except OSError:
                pass
        # drop stale dumps of the same configuration name
        for f in os.listdir(BUILD):
            if f.startswith(name + '-') and f.endswith('.pkl') and os.path.join(BUILD, f) != outp:
                try:
                    os.unlink(os.path.join(BUILD, f))
                except OSError:
                    pass
        return d
