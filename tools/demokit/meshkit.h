// Small meshes and a full consistency check for the demonstrations.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Sparse>
#include <algorithm>
#include <array>
#include <chrono>
#include <atomic>
#include <iostream>
#include <mutex>
#include <queue>
#define private public
#define protected public
#include "tinymesh.h"
#undef private
#undef protected
using namespace tinymesh;
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)

inline void icosphere(int n, std::vector<Vec3> &V, std::vector<uint32_t> &I) {
    const double t = (1 + std::sqrt(5.0)) / 2;
    V = { Vec3(-1, t, 0), Vec3(1, t, 0), Vec3(-1, -t, 0), Vec3(1, -t, 0), Vec3(0, -1, t), Vec3(0, 1, t), Vec3(0, -1, -t), Vec3(0, 1, -t), Vec3(t, 0, -1), Vec3(t, 0, 1), Vec3(-t, 0, -1), Vec3(-t, 0, 1) };
    I = { 0,11,5, 0,5,1, 0,1,7, 0,7,10, 0,10,11, 1,5,9, 5,11,4, 11,10,2, 10,7,6, 7,1,8, 3,9,4, 3,4,2, 3,2,6, 3,6,8, 3,8,9, 4,9,5, 2,4,11, 6,2,10, 8,6,7, 9,8,1 };
    for (int k = 0; k < n; k++) {
        std::map<std::pair<uint32_t, uint32_t>, uint32_t> mid;
        std::vector<uint32_t> J;
        auto m = [&](uint32_t a, uint32_t b) {
            auto key = std::minmax(a, b);
            auto it = mid.find(key);
            if (it != mid.end()) return it->second;
            V.push_back((V[a] + V[b]) * 0.5);
            return mid[key] = (uint32_t)V.size() - 1;
        };
        for (size_t i = 0; i < I.size(); i += 3) {
            uint32_t a = I[i], b = I[i + 1], c = I[i + 2], x = m(a, b), y = m(b, c), z = m(c, a);
            for (uint32_t q : { a, x, z, x, b, y, z, y, c, x, y, z }) J.push_back(q);
        }
        I = J;
    }
    for (auto &v : V) v = v * (1.0 / std::sqrt(v.x() * v.x() + v.y() * v.y() + v.z() * v.z()));
}
inline void grid(int n, std::vector<Vec3> &V, std::vector<uint32_t> &I) {
    V.clear(); I.clear();
    for (int y = 0; y <= n; y++) for (int x = 0; x <= n; x++) V.push_back(Vec3(x, y, 0.1 * std::sin(1.7 * x + 0.9 * y)));
    auto id = [&](int x, int y) { return (uint32_t)(y * (n + 1) + x); };
    for (int y = 0; y < n; y++) for (int x = 0; x < n; x++)
        for (uint32_t q : { id(x, y), id(x + 1, y), id(x + 1, y + 1), id(x, y), id(x + 1, y + 1), id(x, y + 1) }) I.push_back(q);
}
// every id, link and loop of the mesh; prints the first inconsistency
inline bool valid(Mesh &m) {
    std::unordered_set<void *> vs, hs, fs;
    for (size_t i = 0; i < m.vertices_.size(); i++) { vs.insert(m.vertices_[i].get()); if (m.vertices_[i]->index_ != (int)i) return std::printf("vertex id %zu\n", i), false; }
    for (size_t i = 0; i < m.halfedges_.size(); i++) { hs.insert(m.halfedges_[i].get()); if (m.halfedges_[i]->index_ != (int)i) return std::printf("halfedge id %zu\n", i), false; }
    for (size_t i = 0; i < m.faces_.size(); i++) { fs.insert(m.faces_[i].get()); if (m.faces_[i]->index_ != (int)i) return std::printf("face id %zu\n", i), false; }
    if (vs.size() != m.vertices_.size() || hs.size() != m.halfedges_.size() || fs.size() != m.faces_.size()) return std::printf("registered twice\n"), false;
    std::set<std::pair<void *, void *>> seen;
    for (auto &h : m.halfedges_) {
        if (!vs.count(h->src_) || !hs.count(h->next_) || !hs.count(h->rev_) || !fs.count(h->face_)) return std::printf("dangling link\n"), false;
    }
    for (auto &h : m.halfedges_) {
        if (h->rev_ == h.get() || h->rev_->rev_ != h.get()) return std::printf("opposite\n"), false;
        if (h->rev_->src_ != h->next_->src_) return std::printf("end points\n"), false;
        if (h->next_->face_ != h->face_) return std::printf("face of the successor\n"), false;
        if (!seen.insert({ h->src_, h->next_->src_ }).second) return std::printf("duplicate edge\n"), false;
        if (!h->isBoundary_ && h->next_->next_->next_ != h.get()) return std::printf("not a triangle\n"), false;
    }
    for (auto &v : m.vertices_) if (!hs.count(v->halfedge_) || v->halfedge_->src_ != v.get()) return std::printf("vertex link\n"), false;
    for (auto &f : m.faces_) if (!hs.count(f->halfedge_) || f->halfedge_->face_ != f.get()) return std::printf("face link\n"), false;
    return true;
}
