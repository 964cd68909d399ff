/* A Python interpreter with the bindings (compiled from /repo/python) and a second module that makes
 * the same calls directly in C++, so that sanitizers see everything and Python code can compare. */
#include <boost/python.hpp>
#include "columbus.hh"
#include <unistd.h>
#include <string>
#include <vector>

namespace bp = boost::python;
using namespace Columbus;

extern "C" PyObject *PyInit_columbus();

static std::string kind() {
    try { throw; }
    catch(const std::invalid_argument &) { return "ValueError"; }
    catch(const std::out_of_range &) { return "IndexError"; }
    catch(const std::bad_alloc &) { return "MemoryError"; }
    catch(const std::overflow_error &) { return "OverflowError"; }
    catch(const std::exception &) { return "RuntimeError"; }
    catch(...) { return "RuntimeError"; }
}

static bp::object utf(const std::string &s) { return bp::object(bp::handle<>(PyUnicode_DecodeUTF8(s.data(), s.size(), "surrogatepass"))); }
static std::string bytes(const bp::object &o) { return std::string(PyBytes_AsString(o.ptr()), PyBytes_Size(o.ptr())); }

static bp::tuple word(bp::object b) {
    try {
        Word w(bytes(b).c_str());
        return bp::make_tuple(utf(w.asUtf8()), w.length());
    } catch(const bp::error_already_set &) { throw; } catch(...) { return bp::make_tuple(bp::object(), kind()); }
}

static bp::object words(const WordList &l) {
    bp::list r;
    for(size_t i = 0; i < l.size(); i++) r.append(utf(l[i].asUtf8()));
    return r;
}

static bp::object splitText(bp::object b) {
    try {
        return words(splitToWords(bytes(b).c_str()));
    } catch(const bp::error_already_set &) { throw; } catch(...) { return utf(kind()); }
}

static void setErrors(ErrorValues &e, const bp::object &ops) {
    for(int i = 0; i < bp::len(ops); i++) {
        std::string n = bp::extract<std::string>(ops[i][0]);
        if(n == "std") e.addStandardErrors();
        else if(n == "sub") e.setSubstringMode();
        else if(n == "end") e.setEndDeletionError(bp::extract<int>(ops[i][1]));
        else if(n == "clear") e.clearErrors();
        else if(n == "set") e.setError(Letter((Letter_)bp::extract<int>(ops[i][1])), Letter((Letter_)bp::extract<int>(ops[i][2])), bp::extract<int>(ops[i][3]));
    }
}

static bp::object costs(bp::object ops, bp::object pairs) {
    ErrorValues e;
    setErrors(e, ops);
    bp::list r;
    for(int i = 0; i < bp::len(pairs); i++)
        r.append(e.getSubstituteError(Letter((Letter_)bp::extract<int>(pairs[i][0])), Letter((Letter_)bp::extract<int>(pairs[i][1]))));
    return r;
}

/* docs: [[(id, [(field, text)])]] one entry per index call; result per query: list of (id, relevancy) or exception name */
static bp::object match(bp::object batches, bp::object weights, bp::object ops, bp::object queries) {
    Matcher m;
    setErrors(m.getErrorValues(), ops);
    for(int i = 0; i < bp::len(weights); i++)
        m.getIndexWeights().setWeight(Word(bytes(weights[i][0]).c_str()), bp::extract<double>(weights[i][1]));
    for(int b = 0; b < bp::len(batches); b++) {
        Corpus c;
        bp::object docs = batches[b];
        for(int i = 0; i < bp::len(docs); i++) {
            DocumentID id = bp::extract<DocumentID>(docs[i][0]); Document d(id);
            bp::object texts = docs[i][1];
            for(int t = 0; t < bp::len(texts); t++)
                d.addText(Word(bytes(texts[t][0]).c_str()), bytes(texts[t][1]));
            c.addDocument(d);
        }
        m.index(c);
    }
    bp::list out;
    for(int q = 0; q < bp::len(queries); q++) {
        try {
            MatchResults r = m.match(bytes(queries[q]).c_str());
            bp::list l;
            for(size_t i = 0; i < r.size(); i++) l.append(bp::make_tuple(r.getDocumentID(i), r.getRelevancy(i)));
            out.append(l);
        } catch(const bp::error_already_set &) { throw; } catch(...) { out.append(utf(kind())); }
    }
    return out;
}

static bp::tuple defaults() { return bp::make_tuple(ErrorValues::getDefaultError(), ErrorValues::getSubstringDefaultEndDeletionError()); }
static int letterBits() { return sizeof(Letter) * 8; }

BOOST_PYTHON_MODULE(colref) {
    bp::def("word", word);
    bp::def("split", splitText);
    bp::def("costs", costs);
    bp::def("match", match);
    bp::def("defaults", defaults);
    bp::def("letter_bits", letterBits);
}

int main(int argc, char **argv) {
    PyImport_AppendInittab("columbus", PyInit_columbus);
    PyImport_AppendInittab("colref", PyInit_colref);
    std::vector<char*> a{argv[0], (char*)"-I", (char*)"-S", (char*)"-B", (char*)VP_SCRIPT};
    for(int i = 1; i < argc; i++) a.push_back(argv[i]);
    a.push_back(nullptr);
    setenv("PYTHONMALLOC", "malloc", 1);
    return Py_BytesMain((int)a.size() - 1, a.data());
}
