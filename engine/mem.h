// Copy-on-write object memory.  Every object lives in its own 4 GiB slot of the 64-bit address space, so an address
// names its object and any overflow that stays below 4 GiB is seen as out of bounds.
#pragma once
#include <cstring>
#include <memory>
#include <vector>
#include "expr.h"

struct Val { // e == nullptr: concrete
    uint64_t c = 0;
    E e = nullptr;
    Val() {}
    explicit Val(uint64_t v) : c(v) {}
    explicit Val(E x) { if (isC(x)) c = x->c; else e = x; }
    bool conc() const { return !e; }
};
inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

static const E UNDEF_BYTE = (E)1;
static const uint64_t OBJ_BASE = 0x1000;
static const uint64_t FN_BASE = 1ull << 60;

enum class ObjKind : uint8_t { Global, Stack, Heap, Array, Exc, VarArg };

struct MemObj {
    uint32_t refs = 1;
    ObjKind kind = ObjKind::Heap;
    bool readOnly = false;
    std::vector<uint8_t> data;
    std::vector<E> sym; // empty: all bytes concrete; else per byte nullptr / UNDEF_BYTE / expr of width 8
    const char *name = "";
    size_t size() const { return data.size(); }
};

class ObjRef {
public:
    MemObj *p = nullptr;
    ObjRef() {}
    explicit ObjRef(MemObj *q) : p(q) {}
    ObjRef(const ObjRef &o) : p(o.p) { if (p) ++p->refs; }
    ObjRef(ObjRef &&o) : p(o.p) { o.p = nullptr; }
    ObjRef &operator=(ObjRef o) { std::swap(p, o.p); return *this; }
    ~ObjRef() { if (p && --p->refs == 0) delete p; }
};

class Memory {
    struct Chunk { ObjRef o[64]; };
    std::vector<std::shared_ptr<Chunk>> chunks;
    uint32_t next = 0;
    Chunk &wr(uint32_t id) {
        std::shared_ptr<Chunk> &c = chunks[id >> 6];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        return *c;
    }
public:
    uint32_t count() const { return next; }
    uint64_t alloc(uint64_t size, ObjKind kind, const char *name, bool undef) {
        uint32_t id = next++;
        if ((id >> 6) >= chunks.size()) chunks.push_back(std::make_shared<Chunk>());
        MemObj *o = new MemObj;
        o->kind = kind;
        o->name = name;
        o->data.assign(size, 0);
        if (undef) o->sym.assign(size, UNDEF_BYTE);
        wr(id).o[id & 63] = ObjRef(o);
        return addrOf(id);
    }
    static uint64_t addrOf(uint32_t id) { return ((uint64_t)(id + 1) << 32) + OBJ_BASE; }
    // Object id of an address, or -1 when the address is in no slot ever handed out.
    int64_t idOf(uint64_t a) const {
        uint64_t hi = a >> 32;
        if (hi == 0 || hi > next) return -1;
        return (int64_t)hi - 1;
    }
    const MemObj *get(uint32_t id) const { return chunks[id >> 6]->o[id & 63].p; }
    MemObj *getW(uint32_t id) {
        Chunk &c = wr(id);
        ObjRef &r = c.o[id & 63];
        if (r.p->refs > 1) {
            MemObj *n = new MemObj(*r.p);
            n->refs = 1;
            r = ObjRef(n);
        }
        return r.p;
    }
    void release(uint32_t id) { wr(id).o[id & 63] = ObjRef(); }
};
