#pragma once
#include <string>
#include <vector>
namespace tinyobj {
typedef float real_t;
struct index_t { int vertex_index; int normal_index; int texcoord_index; };
struct mesh_t { std::vector<index_t> indices; std::vector<unsigned char> num_face_vertices; std::vector<int> material_ids; };
struct shape_t { std::string name; mesh_t mesh; };
struct material_t { std::string name; };
struct attrib_t { std::vector<real_t> vertices; std::vector<real_t> normals; std::vector<real_t> texcoords; };
bool LoadObj(attrib_t *attrib, std::vector<shape_t> *shapes, std::vector<material_t> *materials, std::string *warn, std::string *err, const char *filename, const char *mtl_basedir = nullptr, bool triangulate = true, bool default_vcols_fallback = true);
}
