"""Derives from the installed pybind11 headers a copy that also works with
NumPy 2 and accepts the 3-argument PYBIND11_MODULE of pybind11 >= 2.13.

Only the glue between Python/NumPy and the code under test is adapted: no
line of /repo is changed.  The edits are the ones pybind11 2.12 made upstream.
"""
import os
import re
import shutil
import sys

SRC = '/usr/include/pybind11'


def sub(text, old, new, count=None):
    if old not in text:
        raise SystemExit(f'pyb11: pattern not found: {old!r}')
    return text.replace(old, new) if count is None else text.replace(
        old, new, count)


def main(dst):
    out = os.path.join(dst, 'pybind11')
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(SRC, out)
    path = os.path.join(out, 'numpy.h')
    with open(path) as f:
        t = f.read()
    t = sub(
        t, '''    char flags;
    int type_num;
    int elsize;
    int alignment;
    char *subarray;
    PyObject *fields;
    PyObject *names;
};''', '''    char former_flags;
    int type_num;
    unsigned long long flags;
    ssize_t elsize;
    ssize_t alignment;
    PyObject *metadata;
    ssize_t hash;
    void *reserved_null[2];
    char *subarray;
    PyObject *fields;
    PyObject *names;
};''')
    t = sub(t, 'numpy.core.multiarray', 'numpy._core.multiarray')
    t = sub(t, 'numpy.core._internal', 'numpy._core._internal')
    t = sub(t, 'API_PyArray_CopyInto = 82', 'API_PyArray_CopyInto = 50')
    t = sub(t, '    char flags() const {', '    unsigned long long flags() const {')
    t = sub(
        t, 'int alignment() const { return detail',
        'int alignment() const { return (int) detail')
    with open(path, 'w') as f:
        f.write(t)
    path = os.path.join(out, 'detail', 'common.h')
    with open(path) as f:
        t = f.read()
    t = sub(t, '#define PYBIND11_MODULE(name, variable)',
            '#define PYBIND11_MODULE(name, variable, ...)')
    t = sub(t, '''PYBIND11_NAMESPACE_BEGIN(PYBIND11_NAMESPACE)

using ssize_t = Py_ssize_t;''', '''PYBIND11_NAMESPACE_BEGIN(PYBIND11_NAMESPACE)
struct mod_gil_not_used {};
using ssize_t = Py_ssize_t;''')
    # Allocations made by the glue itself are not subject to faults: only
    # those made while it runs the code under test.
    t = t + '''
extern "C" int sim_glue(int);
PYBIND11_NAMESPACE_BEGIN(PYBIND11_NAMESPACE)
struct sim_glue_scope {
    int before;
    explicit sim_glue_scope(int on) : before(sim_glue(on)) {}
    ~sim_glue_scope() { sim_glue(before); }
    sim_glue_scope(const sim_glue_scope &) = delete;
};
PYBIND11_NAMESPACE_END(PYBIND11_NAMESPACE)
'''
    with open(path, 'w') as f:
        f.write(t)
    path = os.path.join(out, 'pybind11.h')
    with open(path) as f:
        t = f.read()
    t = sub(t, '''PyObject *kwargs_in) {
        using namespace detail;''', '''PyObject *kwargs_in) {
        using namespace detail;
        sim_glue_scope sim_glue_all(1);''')
    t = sub(t, 'all_type_info_get_cache(PyTypeObject *type) {',
            'all_type_info_get_cache(PyTypeObject *type) {\n'
            '    sim_glue_scope sim_glue_all(1);')
    for call in ('func.impl(call)', 'call.func.impl(call)'):
        t = sub(t, '                    result = ' + call,
                '                    sim_glue_scope sim_glue_none(0);\n'
                '                    result = ' + call)
    with open(path, 'w') as f:
        f.write(t)
    path = os.path.join(out, 'pytypes.h')
    with open(path) as f:
        t = f.read()
    # (it loses the view when it runs out of memory)
    t = sub(t, 'buffer_info request(bool writable = false) const {',
            'buffer_info request(bool writable = false) const {\n'
            '        sim_glue_scope sim_glue_all(1);')
    with open(path, 'w') as f:
        f.write(t)
    path = os.path.join(out, 'detail', 'class.h')
    with open(path) as f:
        t = f.read()
    t = sub(t, 'inline bool register_instance_impl(void *ptr, instance *self) {',
            'inline bool register_instance_impl(void *ptr, instance *self) {\n'
            '    sim_glue_scope sim_glue_all(1);')
    t = sub(t, 'inline PyObject *make_new_instance(PyTypeObject *type) {',
            'inline PyObject *make_new_instance(PyTypeObject *type) {\n'
            '    sim_glue_scope sim_glue_all(1);')
    t = sub(t, 'inline void add_patient(PyObject *nurse, PyObject *patient) {',
            'inline void add_patient(PyObject *nurse, PyObject *patient) {\n'
            '    sim_glue_scope sim_glue_all(1);')
    with open(path, 'w') as f:
        f.write(t)
    path = os.path.join(out, 'detail', 'type_caster_base.h')
    with open(path) as f:
        t = f.read()
    t = sub(t, '''const void *existing_holder = nullptr) {
        if (!tinfo)''', '''const void *existing_holder = nullptr) {
        sim_glue_scope sim_glue_all(1);
        if (!tinfo)''')
    with open(path, 'w') as f:
        f.write(t)
    eigen(dst)


EIGEN = '/usr/include/eigen3/Eigen'


def eigen(dst):
    """A copy of Eigen (links) whose `resize` survives a failed allocation.

    Eigen frees the storage, then allocates: when that fails the matrix keeps
    a dangling pointer that its destructor frees again.  This is a defect of
    Eigen; every other reaction to a failed allocation belongs to the code
    under test.
    """
    out = os.path.join(dst, 'Eigen')
    if os.path.isdir(out):
        shutil.rmtree(out)
    for d in ('', 'src', 'src/Core'):
        os.makedirs(os.path.join(out, d), exist_ok=True)
        for n in os.listdir(os.path.join(EIGEN, d)):
            if os.path.join(d, n) in ('src', 'src/Core',
                                      'src/Core/DenseStorage.h'):
                continue
            os.symlink(os.path.join(EIGEN, d, n), os.path.join(out, d, n))
    name = 'src/Core/DenseStorage.h'
    with open(os.path.join(EIGEN, name)) as f:
        t = f.read()
    t, n = re.subn(
        r'(if ?\(size != ([^)]*)\)\s*\{\s*internal::conditional_aligned_'
        r'delete_auto<[^;]*;)',
        lambda m: m.group(1) + ' m_data = 0; ' + ' '.join(
            x + ' = 0;' for x in ('m_rows', 'm_cols') if x in m.group(2)),
        t)
    if n != 3:
        raise SystemExit(f'pyb11: Eigen: {n} functions instead of 3')
    with open(os.path.join(out, name), 'w') as f:
        f.write(t)


if __name__ == '__main__':
    main(sys.argv[1])
