// Uses of the mesh classes for the analyses.  Only compiled, never run.
#include <new>
#include "core/mesh.h"
#include "core/vertex.h"
#include "core/halfedge.h"
#include "core/face.h"
using namespace tinymesh;

void sink(const void *);

Vertex *get_vertex(const Mesh &m, int i) { return m.vertex(i); }
Halfedge *get_halfedge(const Mesh &m, int i) { return m.halfedge(i); }
Face *get_face(const Mesh &m, int i) { return m.face(i); }

#define WALKS(T, K, I, Q)                                                                              \
    void pre_##T##_##K##_##Q(I &x) { for (auto it = x.K##_begin(); it != x.K##_end(); ++it) sink(it.ptr()); }          \
    void post_##T##_##K##_##Q(I &x) { for (auto it = x.K##_begin(); it != x.K##_end(); it++) sink(&*it); }            \
    void arrow_##T##_##K##_##Q(I &x) { for (auto it = x.K##_begin(); it != x.K##_end(); ++it) sink(it.operator->()); } \
    void old_##T##_##K##_##Q(I &x) { auto it = x.K##_begin(); auto o = it++; sink(o.ptr()); }

#define ALL(T, K) WALKS(T, K, T, mut) WALKS(T, K, const T, const)
ALL(Vertex, v)
ALL(Vertex, he)
ALL(Vertex, f)
ALL(Face, v)
ALL(Face, he)
ALL(Face, f)

void new_vertex(void *o) { new (o) Vertex(); }
void new_vertex_at(void *o, const Vec3 &p) { new (o) Vertex(p); }
void new_halfedge(void *o) { new (o) Halfedge(); }
void new_face(void *o) { new (o) Face(); }
void new_mesh(void *o) { new (o) Mesh(); }
void copy_vertex(void *o, const Vertex &v) { new (o) Vertex(v); }
void copy_halfedge(void *o, const Halfedge &h) { new (o) Halfedge(h); }
void copy_face(void *o, const Face &f) { new (o) Face(f); }
void assign_vertex(Vertex &o, const Vertex &v) { o = v; }
void assign_halfedge(Halfedge &o, const Halfedge &h) { o = h; }
void assign_face(Face &o, const Face &f) { o = f; }
void move_vertex(void *o, Vertex &v) { new (o) Vertex(std::move(v)); }
void move_halfedge(void *o, Halfedge &h) { new (o) Halfedge(std::move(h)); }
void move_face(void *o, Face &f) { new (o) Face(std::move(f)); }
void moveassign_vertex(Vertex &o, Vertex &v) { o = std::move(v); }
void moveassign_halfedge(Halfedge &o, Halfedge &h) { o = std::move(h); }
void moveassign_face(Face &o, Face &f) { o = std::move(f); }
bool eq_vertex(const Vertex &a, const Vertex &b) { return a == b; }
bool eq_halfedge(const Halfedge &a, const Halfedge &b) { return a == b; }
bool eq_face(const Face &a, const Face &b) { return a == b; }
void set_lock(Vertex &v) { v.lock(); }
void set_unlock(Vertex &v) { v.unlock(); }
void set_pos(Vertex &v, const Vec3 &p) { v.setPos(p); }
Vec3 read_pos(const Vertex &v) { return v.pos(); }
int read_vertex_id(const Vertex &v) { return v.index(); }
int read_halfedge_id(const Halfedge &h) { return h.index(); }
int read_face_id(const Face &f) { return f.index(); }
bool read_lock(const Vertex &v) { return v.isLocked(); }
bool read_edge_lock(const Halfedge &h) { return h.isLocked(); }
bool read_boundary(const Halfedge &h) { return h.isBoundary(); }
Vertex *read_src(const Halfedge &h) { return h.src(); }
Vertex *read_dst(const Halfedge &h) { return h.dst(); }
Halfedge *read_next(const Halfedge &h) { return h.next(); }
Halfedge *read_prev(const Halfedge &h) { return h.prev(); }
Halfedge *read_rev(const Halfedge &h) { return h.rev(); }
Face *read_face(const Halfedge &h) { return h.face(); }
void set_boundary(Halfedge &h, bool b) { h.setIsBoundary(b); }
