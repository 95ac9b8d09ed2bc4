// Stand-in for the tinyobjloader submodule, enough of it for this demonstration (v and f lines only).
#pragma once
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
namespace tinyobj {
typedef float real_t;
struct index_t { int vertex_index, normal_index, texcoord_index; };
struct mesh_t { std::vector<index_t> indices; };
struct shape_t { std::string name; mesh_t mesh; };
struct material_t { std::string name; };
struct attrib_t { std::vector<real_t> vertices; };
inline bool LoadObj(attrib_t *attrib, std::vector<shape_t> *shapes, std::vector<material_t> *, std::string *, std::string *err, const char *filename) {
    std::ifstream is(filename);
    if (!is) { *err = "cannot open"; return false; }
    shapes->resize(1);
    std::string l, k;
    while (std::getline(is, l)) {
        std::istringstream s(l);
        s >> k;
        if (k == "v") for (float x; s >> x;) attrib->vertices.push_back(x);
        if (k == "f") for (std::string w; s >> w;) { int i = std::atoi(w.c_str()); (*shapes)[0].mesh.indices.push_back({ i - 1, -1, -1 }); }
    }
    return true;
}
}
