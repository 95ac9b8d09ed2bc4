// Stand-in for the tinyply submodule, enough of it for this demonstration.
#pragma once
#include <cstdint>
#include <cstring>
#include <istream>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };
struct Buffer {
    std::vector<uint8_t> d;
    uint8_t *get() { return d.data(); }
    size_t size_bytes() const { return d.size(); }
};
struct PlyData { Type t; Buffer buffer; size_t count = 0; bool isList = false; };
struct PlyFile {
    size_t nv = 0, nf = 0, wv = 0, wf = 0;
    std::shared_ptr<PlyData> v, f;
    std::vector<uint8_t> ov, of;
    std::vector<std::string> comments;
    std::vector<std::string> &get_comments() { return comments; }
    bool parse_header(std::istream &is) {
        std::string l;
        while (std::getline(is, l) && l.compare(0, 10, "end_header") != 0) {
            std::istringstream s(l); std::string a, b; size_t n = 0; s >> a >> b >> n;
            if (a == "element" && b == "vertex") nv = n;
            if (a == "element" && b == "face") nf = n;
        }
        return true;
    }
    std::shared_ptr<PlyData> request_properties_from_element(const std::string &el, const std::vector<std::string> k, const uint32_t = 0) {
        if (el == "vertex" && k[0] == "x") { v = std::make_shared<PlyData>(); v->t = Type::FLOAT32; v->count = nv; return v; }
        if (el == "face") { f = std::make_shared<PlyData>(); f->t = Type::UINT32; f->count = nf; return f; }
        throw std::invalid_argument("no such property");
    }
    void read(std::istream &is) {
        v->buffer.d.resize(nv * 12); is.read((char *)v->buffer.d.data(), nv * 12);
        f->buffer.d.resize(nf * 12);
        for (size_t i = 0; i < nf; i++) { is.get(); is.read((char *)f->buffer.d.data() + 12 * i, 12); }
    }
    void add_properties_to_element(const std::string &el, const std::vector<std::string>, const Type, const size_t n, const uint8_t *p, const Type, const size_t) {
        if (el == "vertex") { wv = n; ov.assign(p, p + n * 12); } else { wf = n; of.assign(p, p + n * 12); }
    }
    void write(std::ostream &os, bool) {
        os << "ply\nformat binary_little_endian 1.0\nelement vertex " << wv << "\nproperty float x\nproperty float y\nproperty float z\nelement face " << wf
           << "\nproperty list uchar uint vertex_indices\nend_header\n";
        os.write((const char *)ov.data(), ov.size());
        for (size_t i = 0; i < wf; i++) { os.put(3); os.write((const char *)of.data() + 12 * i, 12); }
    }
};
}
