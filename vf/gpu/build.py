"""Builds the CUDA operations of a tree for the monitored CPU runtime.

`build(repo, out)` copies `custom_ops/tfg_custom_ops` to `out`, maps the CUDA
syntax (launches, shared memory) to calls of the runtime in `vfcuda.cpp`, and
compiles every operation against the headers of the installed TensorFlow. The
resulting tree is an importable package `tfg_custom_ops`.
"""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
TF = os.path.join(sysconfig.get_paths()['purelib'], 'tensorflow')
BASE = ['clang++', '-std=c++17', '-O1', '-fPIC', '-DNDEBUG', '-w',
        '-D_GLIBCXX_USE_CXX11_ABI=1', '-fno-strict-aliasing']
TSAN = ['-fsanitize=thread', '-fno-vectorize', '-fno-slp-vectorize',
        '-mllvm', '-tsan-instrument-func-entry-exit=0',
        '-mllvm', '-tsan-instrument-read-before-write=1']


def _match(text, i, op, cl):
  """ Index after the bracket which closes the one at `i`. """
  depth = 0
  while i < len(text):
    if text[i] == op:
      depth += 1
    elif text[i] == cl:
      depth -= 1
      if depth == 0:
        return i + 1
    i += 1
  raise ValueError('unbalanced ' + op)


def _code(text):
  """ The text with comments and literals blanked, of the same length. """
  return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"',
                lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)


def _launches(text):
  while True:
    code = _code(text)
    i = code.find('<<<')
    if i < 0:
      return text
    # the kernel: identifier, optionally with namespaces and template arguments
    j = i
    while code[j - 1].isspace():
      j -= 1
    if code[j - 1] == '>':
      depth = 0
      while True:
        j -= 1
        depth += {'>': 1, '<': -1}.get(code[j], 0)
        if depth == 0:
          break
      while code[j - 1].isspace():
        j -= 1
    while code[j - 1].isalnum() or code[j - 1] in '_:':
      j -= 1
    e = code.index('>>>', i)
    a = e + 3
    while code[a].isspace():
      a += 1
    b = _match(code, a, '(', ')')
    kernel = text[j:i].strip()
    text = (text[:j] + '::vf::launch("' + re.sub(r'\s+', '', kernel) +
            '", ::vf::Cfg(' + text[i + 3:e] + '), '
            '[=]() __attribute__((no_sanitize("thread"))) { ' + kernel +
            text[a:b] + '; })' + text[b:])


def _shared(text):
  n = [0]

  def dyn(m):
    return '%s* %s = (%s*)::vf::shared_dyn();' % (
        m.group(1), m.group(2), m.group(1))

  def static(m):
    t, name, dims = m.group(1).strip(), m.group(2), m.group(3) or ''
    n[0] += 1
    key = 'vf_shared_%d' % n[0]
    return ('static char {k}; typedef {t} {k}_t{d}; {k}_t& {n} = '
            '*({k}_t*)::vf::shared_static(&{k}, sizeof({k}_t));').format(
                k=key, t=t, d=dims, n=name)

  text = re.sub(r'\bextern\s+__shared__\s+([\w:<>\s]+?)\s*\b(\w+)\s*\[\s*\]\s*;',
                dyn, text)
  return re.sub(r'(?<!extern )\b__shared__\s+([\w:<>\s]+?)\s*\b(\w+)\s*'
                r'((?:\[[^\]]*\])*)\s*;', static, text)


def translate(text):
  text = _shared(_launches(text))
  text = re.sub(r'\bStatus::OK\(\)', 'OkStatus()', text)
  text = re.sub(r'typedef\s+long\s+long(\s+int)?\s+int64_m\s*;',
                'typedef int64_t int64_m;', text)
  text = re.sub(r'#define\s+EIGEN_USE_GPU\b', '', text)
  text = re.sub(r'\b(\w+)\s*->\s*allocate_temp\(',
                r'::vf::allocate_temp(\1, ', text)
  text = re.sub(r'\b\w+\s*->\s*eigen_device\s*<\s*Eigen::GpuDevice\s*>\s*\(\s*\)'
                r'\s*\.\s*stream\s*\(\s*\)', '::vf::stream()', text)
  return re.sub(r'\btime\(\s*(NULL|nullptr|0)\s*\)', '::vf::now()', text)


def _run(cmd):
  r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                     text=True)
  if r.returncode:
    raise RuntimeError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))


def build(repo, out):
  """ Compiles the operations of `repo` into `out`, a new directory whose name
  contains `vfgpu`; returns the path for PYTHONPATH. """
  assert 'vfgpu' in out
  src = os.path.join(repo, 'custom_ops', 'tfg_custom_ops')
  pkg = os.path.join(out, 'tfg_custom_ops')
  os.makedirs(pkg)
  kernels, ops, device = [], [], []
  for d, _, files in os.walk(src):
    rel = os.path.relpath(d, src)
    os.makedirs(os.path.join(pkg, rel), exist_ok=True)
    for f in files:
      p, q = os.path.join(d, f), os.path.join(pkg, rel, f)
      if f.endswith(('.cc', '.cpp', '.h', '.hpp')):
        with open(p) as fd:
          text = translate(fd.read())
        with open(q, 'w') as fd:
          fd.write(text)
        if f.endswith('.cu.cc'):
          kernels.append(q)
        elif '/cc/ops/' in q:
          ops.append(q)
        elif f.endswith(('.cpp', '.cc')):
          device.append(q)
      elif f.endswith('.py'):
        shutil.copy(p, q)
  extra = os.path.join(HERE, 'extra_ops.cpp')
  if os.path.exists(extra):
    q = os.path.join(pkg, 'extra_ops.cpp')
    with open(extra) as a, open(q, 'w') as b:
      b.write(translate(a.read()))
    ops.append(q)
  inc = ['-I', os.path.join(HERE, 'include'), '-I', out, '-I',
         os.path.join(pkg, 'shared', 'cc', 'kernels'),
         '-isystem', os.path.join(TF, 'include')]
  libs = ['-L', TF, '-l:libtensorflow_framework.so.2', '-l:libtensorflow_cc.so.2',
          '-Wl,-rpath,' + TF]

  def local(f):
    return ['-I', os.path.dirname(f), '-I',
            os.path.join(os.path.dirname(f), '..', 'kernels')]

  jobs = []
  for f in sorted(kernels + ops + device):
    jobs.append(BASE + TSAN + inc + local(f) + ['-c', f, '-o', f + '.o'])
  rt = os.path.join(out, 'libvfcuda.so')
  jobs.insert(0, BASE + ['-shared', os.path.join(HERE, 'vfcuda.cpp')] + inc +
              libs + ['-o', rt])
  # the long ones, which include the headers of TensorFlow, first
  jobs.sort(key=lambda j: not any('/ops/' in x or 'vfcuda' in x for x in j))
  with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
    list(ex.map(_run, jobs))
    lib = os.path.join(out, 'libkernels.a')
    _run(['ar', 'rcs', lib] + [f + '.o' for f in sorted(kernels + device)])

    def link(f):
      base = os.path.basename(f)[:-4]
      d = os.path.join(os.path.dirname(f), '..', '..', 'python', 'ops') \
          if '/cc/ops/' in f else pkg
      _run(['clang++', '-shared', f + '.o', lib, '-L', out, '-lvfcuda',
            '-Wl,-rpath,' + out] + libs +
           ['-Wl,-z,defs', '-o', os.path.join(d, '_' + base + '.so')])
    list(ex.map(link, ops))
  return out


if __name__ == '__main__':
  build(sys.argv[1], sys.argv[2])
