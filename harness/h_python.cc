// the Python extension: the committed wrapper runs instrumented inside a real CPython (libpython), symbolic numbers travel through Python floats
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "algos.hpp"
extern "C" PyObject *PyInit__crossprob(void);
static PyObject *g_mod;
static void start_python(const char *dir)
{
    PyImport_AppendInittab("_crossprob", PyInit__crossprob);
    PyConfig c;
    PyConfig_InitIsolatedConfig(&c);
    c.site_import = 0;
    c.write_bytecode = 0;
    PyWideStringList_Append(&c.warnoptions, L"ignore");
    PyStatus st = Py_InitializeFromConfig(&c);
    if (PyStatus_Exception(st)) abort();
    PyObject *path = PySys_GetObject("path"), *d = PyUnicode_FromString(dir);
    PyList_Insert(path, 0, d);
    g_mod = PyImport_ImportModule("crossprob");
    if (!g_mod) PyErr_Print();
}
enum { LIST, TUPLE, VECTOR, KINDS };
enum { FLOAT, INT0, INT1, NANV, INFV, NONE, TEXT, ELEMS };
static PyObject *element(int e, double v)
{
    switch (e) {
    case INT0: return PyLong_FromLong(0);
    case INT1: return PyLong_FromLong(1);
    case NONE: Py_RETURN_NONE;
    case TEXT: return PyUnicode_FromString("0.5");
    default: return PyFloat_FromDouble(v);
    }
}
static PyObject *sequence(int kind, const vector<double> &v, const vector<int> &e)
{
    PyObject *l = PyList_New(v.size());
    for (size_t i = 0; i < v.size(); ++i) PyList_SET_ITEM(l, i, element(e[i], v[i]));
    if (kind == TUPLE) return PyList_AsTuple(l);
    if (kind == VECTOR) {
        PyObject *cls = PyObject_GetAttrString(g_mod, "VectorDouble"), *o = PyObject_CallFunctionObjArgs(cls, l, NULL);
        return o;
    }
    return l;
}
static const char *NAMES[] = {"ecdf2", "ecdf2", "ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B"};
extern "C" void sym_harness()
{
    int op = sym_param("op", 0), n = sym_param("n", 2), m = sym_param("m", n), any = sym_param("any", 0), odd = sym_param("odd", 0), kinds = sym_param("kinds", 1), misuse = sym_param("misuse", 0);
    bool two = op == OP_KS || op == OP_FFT;
    vector<double> b(n), B(two ? m : 0);
    vector<int> eb(n, FLOAT), eB(B.size(), FLOAT);
    int K = sym_param("levels", 0);
    if (K) {
        Levels L = sym_levels(K);
        vector<int> lb, ub;
        bool lower = op_lower(op);
        level_choice(n, K, sym_param("pat", 1), sym_param("wide", 0), lb, ub, !two && lower, !two && !lower);
        b = at_levels(L, two || lower ? lb : ub);
        if (two) B = at_levels(L, ub);
    } else if (any) {
        for (int i = 0; i < n; ++i) b[i] = sym_real(("b" + std::to_string(i)).c_str());
        for (size_t i = 0; i < B.size(); ++i) B[i] = sym_real(("B" + std::to_string(i)).c_str());
    } else {
        b = sym_bounds("b", n);
        if (two) B = sym_bounds("B", m);
    }
    bool text = false;
    if (odd) { // one element of another type
        bool second = two && m > 0 && (n == 0 || sym_choice("which", 2));
        vector<double> &v = second ? B : b;
        vector<int> &e = second ? eB : eb;
        int at = sym_choice("at", v.size()), t = INT0 + sym_choice("type", ELEMS - INT0);
        e[at] = t;
        if (t == INT0) v[at] = 0.0;
        if (t == INT1) v[at] = 1.0;
        if (t == NANV) v[at] = __builtin_nan("");
        if (t == INFV) v[at] = __builtin_inf();
        text = t == NONE || t == TEXT;
    }
    int kind = kinds > 1 ? sym_choice("kind", kinds) : 0;
    // what the C++ function does with these numbers
    double want = 0.0;
    bool threw = false;
    if (text) threw = true;
    else
        try {
            want = two ? ecdf2(b, B, op == OP_FFT) : op == OP_NEW_b ? ecdf1_new_b(b) : op == OP_NEW_B ? ecdf1_new_B(b) : op == OP_MNS_b ? ecdf1_mns2016_b(b) : ecdf1_mns2016_B(b);
        } catch (std::exception &) { threw = true; }
    start_python(sym_param_s("pydir", "/repo/python_extension"));
    sym_assert(g_mod != NULL, "the module can be imported");
    if (!g_mod) return;
    sym_rec_begin("python");
    sym_rec_int("op", op);
    sym_rec_int("kind", kind);
    sym_rec_int("misuse", misuse);
    sym_rec_int("gen", sym_param("gen", 0));
    sym_rec_vec("b", b.data(), b.size());
    sym_rec_vec("B", B.data(), B.size());
    for (int i = 0; i < n; ++i) if (eb[i]) { sym_rec_int("odd0", i); sym_rec_int("type", eb[i]); }
    for (size_t i = 0; i < B.size(); ++i) if (eB[i]) { sym_rec_int("odd1", (long)i); sym_rec_int("type", eB[i]); }
    PyObject *x = sequence(kind, b, eb), *y = two ? sequence(kind, B, eB) : NULL;
    if (!x || (two && !y)) { // a VectorDouble refuses anything but numbers
        sym_assert(text, "numbers are accepted by VectorDouble");
        sym_reach("rejected");
        sym_reach("result");
        return;
    }
    PyObject *f = PyObject_GetAttrString(g_mod, NAMES[op]);
    sym_assert(f != NULL, "the function exists");
    if (!f) return;
    vector<PyObject *> held;
    vector<Py_ssize_t> counts;
    PyObject *seqs[2] = {x, y};
    for (int s = 0; s < 2; ++s)
        if (seqs[s]) {
            held.push_back(seqs[s]);
            if (kind != VECTOR) for (Py_ssize_t i = 0; i < PySequence_Size(seqs[s]); ++i) { PyObject *o = PySequence_GetItem(seqs[s], i); held.push_back(o); Py_DECREF(o); }
        }
    for (size_t i = 0; i < held.size(); ++i) counts.push_back(Py_REFCNT(held[i]));
    PyObject *fft = op == OP_FFT ? Py_True : Py_False, *r;
    switch (misuse) {
    case 1: r = PyObject_CallFunctionObjArgs(f, NULL); break;                                // no arguments
    case 2: r = two ? PyObject_CallFunctionObjArgs(f, x, y, NULL) : PyObject_CallFunctionObjArgs(f, x, x, NULL); break;
    case 3: r = two ? PyObject_CallFunctionObjArgs(f, x, Py_None, fft, NULL) : PyObject_CallFunctionObjArgs(f, Py_None, NULL); break;
    case 4: { PyObject *s = PyUnicode_FromString("0.5"); r = two ? PyObject_CallFunctionObjArgs(f, s, y, fft, NULL) : PyObject_CallFunctionObjArgs(f, s, NULL); break; }
    case 5: { PyObject *s = PyFloat_FromDouble(0.5); r = two ? PyObject_CallFunctionObjArgs(f, x, s, fft, NULL) : PyObject_CallFunctionObjArgs(f, s, NULL); break; }
    case 6: r = two ? PyObject_CallFunctionObjArgs(f, x, y, x, NULL) : PyObject_CallFunctionObjArgs(f, fft, NULL); break; // a list is no bool
    default: r = two ? PyObject_CallFunctionObjArgs(f, x, y, fft, NULL) : PyObject_CallFunctionObjArgs(f, x, NULL);
    }
    bool expect = !threw && !misuse;
    sym_reach("result");
    sym_rec_int("raised", r == NULL);
    if (!r) {
        PyObject *e = PyErr_GetRaisedException();
        sym_assert(e != NULL, "a failing call sets an exception");
        if (e) {
            bool rt = PyErr_GivenExceptionMatches(e, PyExc_RuntimeError);
            PyObject *s = PyObject_Str(e);
            if (!misuse && threw && !text) sym_assert(rt && s && PyUnicode_GetLength(s) > 0, "an error of the algorithm is a RuntimeError with a message");
            Py_XDECREF(s);
            PyErr_Clear();
            Py_DECREF(e); // the traceback of the exception holds the frame of the Python function with its arguments
        }
        sym_assert(!expect, "a valid call returns a value");
        sym_reach("rejected");
    } else {
        sym_assert(expect, misuse ? "a call with wrong arguments raises an exception" : text ? "a sequence with something that is no number raises an exception" : "invalid boundaries raise an exception");
        sym_assert(PyErr_Occurred() == NULL, "a successful call sets no exception");
        sym_assert(PyFloat_Check(r), "the result is a float");
        if (PyFloat_Check(r) && expect) {
            double v = PyFloat_AS_DOUBLE(r);
            sym_rec_out("result", v);
            sym_assert_eq(v, want, "the Python function returns the value of the algorithm");
            sym_reach("accepted");
        }
    }
    Py_XDECREF(r);
    for (size_t i = 0; i < held.size(); ++i) sym_assert(Py_REFCNT(held[i]) == counts[i], "the arguments keep their reference counts");
}
