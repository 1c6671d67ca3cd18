#!/usr/bin/env python3
"""Generates light-weight C++ message classes (same accessor API as protobuf) from the .proto-like specs in protos/.

Field numbers are optional and ignored.  Serialisation is a private fixed-layout encoding (self-inverse, no varints) so
that symbolic integers do not fork; the empty string parses as the default message, as in protobuf."""
import os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
src = os.path.join(here, 'protos'); out = sys.argv[1] if len(sys.argv) > 1 else os.path.join(here, 'gen')
SC = {'int64': 'int64_t', 'uint64': 'uint64_t', 'int32': 'int32_t', 'uint32': 'uint32_t', 'bool': 'bool', 'double': 'double', 'float': 'float', 'fixed64': 'uint64_t', 'sint64': 'int64_t', 'sint32': 'int32_t', 'fixed32': 'uint32_t'}
STR = {'string', 'bytes'}

class Msg:
    def __init__(s, name, pkg): s.name = name; s.pkg = pkg; s.fields = []; s.oneofs = []; s.nested = {}; s.forced = False
class Enum:
    def __init__(s, name, pkg): s.name = name; s.pkg = pkg; s.vals = []; s.owner = None
pk = {}     # pkg -> {'msgs': ordered list, 'enums': list}
def tokenize(t):
    t = re.sub(r'//[^\n]*', '', t); t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    return re.findall(r'[A-Za-z_][\w.]*|-?\d+|[{}=;<>,()\[\]]|"[^"]*"', t)
def parse(fn):
    tk = tokenize(open(fn).read()); i = 0; pkg = None
    def block_msg(i, name, pkg):
        m = Msg(name, pkg); pk[pkg]['msgs'].append(m)
        one = None
        while tk[i] != '}' or one:
            if tk[i] == '}': one = None; i += 1; continue
            if tk[i] == 'message':
                m.nested[tk[i+1]] = name + '_' + tk[i+1]; i = block_msg(i + 3, name + '_' + tk[i+1], pkg); continue
            if tk[i] == 'enum':
                m.nested[tk[i+1]] = name + '_' + tk[i+1]; i = block_enum(i + 3, name + '_' + tk[i+1], pkg, m); continue
            if tk[i] == 'oneof': one = tk[i+1]; m.oneofs.append(one); i += 3; continue
            if tk[i] == 'reserved':
                while tk[i] != ';': i += 1
                i += 1; continue
            rep = opt = False; mp = None
            if tk[i] == 'repeated': rep = True; i += 1
            elif tk[i] == 'optional': opt = True; i += 1
            ty = tk[i]; i += 1
            if ty == 'map' and tk[i] == '<':
                mp = (tk[i+1], tk[i+3]); i += 5
            nm = tk[i]; i += 1
            while tk[i] != ';': i += 1
            i += 1
            m.fields.append(dict(ty=ty, name=nm, rep=rep, opt=opt, map=mp, one=one))
        return i + 1
    def block_enum(i, name, pkg, owner=None):
        e = Enum(name, pkg); e.owner = owner; pk[pkg]['enums'].append(e); nxt = 0
        while tk[i] != '}':
            if tk[i] == 'option':
                while tk[i] != ';': i += 1
                i += 1; continue
            nm = tk[i]; i += 1
            if tk[i] == '=': nxt = int(tk[i+1]); i += 2
            while tk[i] != ';': i += 1
            i += 1; e.vals.append((nm, nxt)); nxt += 1
        return i + 1
    while i < len(tk):
        if tk[i] == 'package': pkg = tk[i+1]; pk.setdefault(pkg, dict(msgs=[], enums=[])); i += 3
        elif tk[i] == 'extend':
            ns, nm = tk[i+1].split('.'); pk.setdefault(ns, dict(msgs=[], enums=[])); old = [m for m in pk[ns]['msgs'] if m.name == nm]
            i = block_msg(i + 3, nm, ns)
            if old:
                new = pk[ns]['msgs'].pop(); have = {f['name'] for f in old[0].fields}
                old[0].fields += [f for f in new.fields if f['name'] not in have]
        elif tk[i] == 'message': i = block_msg(i + 3, tk[i+1], pkg)
        elif tk[i] == 'enum': i = block_enum(i + 3, tk[i+1], pkg)
        elif tk[i] in ('syntax', 'import', 'option'):
            while tk[i] != ';': i += 1
            i += 1
        else: raise SystemExit('%s: unexpected %s near %s' % (fn, tk[i], tk[max(0, i-5):i+5]))
for f in sorted(os.listdir(src), key=lambda f: (f == 'zz_ext.proto', f)):
    if f.endswith('.proto'): parse(os.path.join(src, f))

# types that the code under /repo/src mentions but the specs do not describe: enums when used as X::CONST / X_Name, else empty messages
SRC = os.environ.get('DINGO_SRC', '/repo/src')
def autostub():
    used = {}; text = []
    for root, ds, fs in os.walk(SRC):
        if any(x in root for x in ('/client', '/java', '/br')): continue
        for f in fs:
            if f.endswith(('.h', '.cc')): text.append(open(os.path.join(root, f), errors='replace').read())
    allt = '\n'.join(text)
    for m in re.finditer(r'\bpb::([a-z_]+)::([A-Za-z]\w*)(?:::(\w+))?', allt): used.setdefault((m.group(1), m.group(2)), set()).add(m.group(3))
    for (ns, nm), subs in sorted(used.items()):
        if not re.match(r'[a-z_]+$', ns) or ns in ('std',): continue
        pk.setdefault(ns, dict(msgs=[], enums=[]))
        names = {m.name for m in pk[ns]['msgs']}; en = {e.name: e for e in pk[ns]['enums']}
        subs = {x for x in subs if x}
        if nm in en:
            e = en[nm]; have = {v[0] for v in e.vals}; nxt = max([v for _, v in e.vals] + [-1]) + 1
            for x in sorted(subs):
                if x not in have and 'SENTINEL' not in x and not x.endswith(('_Name', '_descriptor')) and not x.startswith(nm + '_') and not e.owner: e.vals.append((x, nxt)); nxt += 1
            continue
        if nm in names: continue
        if nm.endswith(('_Name', '_Parse', '_IsValid', '_descriptor', '_Stub', 'Service')) or 'SENTINEL' in nm or nm.isupper() or '_' in nm: continue
        if any(nm == v[0] for e in pk[ns]['enums'] for v in e.vals): continue
        if nm + '_Name' in {k[1] for k in used if k[0] == ns} or any(re.match(r'[A-Z][A-Z0-9_]+$', x) for x in subs):
            e = Enum(nm, ns); e.vals = [(x, i) for i, x in enumerate(sorted(x for x in subs if re.match(r'[A-Z][A-Z0-9_]+$', x)))]; pk[ns]['enums'].append(e)
        else: pk[ns]['msgs'].append(Msg(nm, ns))
    # bare enum constants of pb::error
    errs = sorted({b for a, b in used if a == 'error' and re.match(r'E[A-Z0-9_]+$', b)})
    e = next(e for e in pk['error']['enums'] if e.name == 'Errno'); have = {v[0] for v in e.vals}; nxt = max(v for _, v in e.vals) + 10000
    for x in errs:
        if x not in have: e.vals.append((x, nxt)); nxt += 1
autostub()

msgs = {}; enums = {}
for p in pk:
    for m in pk[p]['msgs']:
        if (p, m.name) in msgs: raise SystemExit('duplicate message %s.%s' % (p, m.name))
        msgs[(p, m.name)] = m
    for e in pk[p]['enums']: enums[(p, e.name)] = e
def resolve(m, ty):
    if ty in SC: return ('scalar', SC[ty])
    if ty in STR: return ('string', 'std::string')
    cands = []
    if '.' in ty:
        ty2 = ty.split('.'); ty2 = ty2[2:] if ty2[:2] == ['dingodb', 'pb'] else ty2
        if ty2[0] in pk: cands.append((ty2[0], '_'.join(ty2[1:])))
        cands.append((m.pkg, '_'.join(ty2)))
    else:
        if ty in m.nested: cands.append((m.pkg, m.nested[ty]))
        parts = m.name.split('_')
        for k in range(len(parts) - 1, 0, -1): cands.append((m.pkg, '_'.join(parts[:k]) + '_' + ty))
        cands.append((m.pkg, ty)); cands.append(('common', ty))
    for c in cands:
        if c in msgs: return ('msg', 'dingodb::pb::%s::%s' % c, c)
        if c in enums: return ('enum', 'dingodb::pb::%s::%s' % c, c)
    raise SystemExit('unresolved type %s in %s.%s' % (ty, m.pkg, m.name))

# everything goes into one header so that cross-package references are simple
o = []
w = o.append
w('#pragma once\n#include "google/protobuf/shim_pb.h"\nnamespace dingodb { namespace pb {')
for p in pk:
    w('namespace %s {' % p)
    for e in pk[p]['enums']:
        if not e.vals: e.vals = [(e.name + '_UNSPEC', 0)]
        pre = e.name + '_' if e.owner else ''
        w('enum %s : int {' % e.name)
        w('  ' + ', '.join('%s%s = %d' % (pre, n, v) for n, v in e.vals) + ', %s_INT_MIN_SENTINEL_DO_NOT_USE_ = INT32_MIN, %s_INT_MAX_SENTINEL_DO_NOT_USE_ = INT32_MAX' % (e.name, e.name))
        w('};')
        lo = min(v for n, v in e.vals); hi = max(v for n, v in e.vals)
        w('template <class T> inline const std::string& %s_Name(T) { return ::google::protobuf::EmptyName(); }' % e.name)
        w('inline bool %s_IsValid(int v) { switch (v) { %s return true; default: return false; } }' % (e.name, ' '.join('case %d:' % v for v in sorted(set(v for n, v in e.vals)))))
        w('inline bool %s_Parse(const std::string& s, %s* out) { %s return false; }' % (e.name, e.name, ' '.join('if (s == "%s") { *out = %s%s; return true; }' % (n, pre, n) for n, v in e.vals[:40])))
        w('constexpr %s %s_MIN = (%s)%d; constexpr %s %s_MAX = (%s)%d; constexpr int %s_ARRAYSIZE = %d;' % (e.name, e.name, e.name, lo, e.name, e.name, e.name, hi, e.name, hi + 1))
        w('inline const ::google::protobuf::EnumDescriptor* %s_descriptor() { return nullptr; }' % e.name)
    for m in pk[p]['msgs']: w('class %s;' % m.name)
    w('}')
def camel(s): return ''.join(x[:1].upper() + x[1:] for x in s.split('_'))
# order messages so that by-value members are complete first: all sub-messages are held by pointer, so order is free,
# but inline bodies need complete types; emit declarations first, bodies afterwards.
decl = []; body = []
for p in pk:
    for m in pk[p]['msgs']:
        C = m.name; F = []
        for f in m.fields:
            if f['map']:
                k = resolve(m, f['map'][0]); v = resolve(m, f['map'][1]); F.append((f, ('map', k, v)))
            else: F.append((f, resolve(m, f['ty'])))
        d = decl.append; b = body.append
        if not F and not m.nested:
            d('namespace %s { class %s : public ::google::protobuf::EmptyMsg<%s> {}; }' % (p, C, C)); continue
        d('namespace %s { class %s : public ::google::protobuf::Message {' % (p, C)); d(' public:')
        d('  %s(); %s(const %s& o); %s(%s&& o) noexcept; ~%s() override; %s& operator=(const %s& o); %s& operator=(%s&& o) noexcept;' % ((C,) * 10))
        d('  static const %s& default_instance(); %s* New() const { return new %s(); }' % (C, C, C))
        d('  void CopyFrom(const %s& o) { *this = o; } void MergeFrom(const %s& o); void Swap(%s* o); void swap(%s& o) { Swap(&o); } void Clear() override; bool IsInitialized() const { return true; }' % (C, C, C, C))
        d('  void Enc(::google::protobuf::Writer& w) const override; bool Dec(::google::protobuf::Reader& r) override; bool Eq(const %s& o) const; bool Def() const override;' % C)
        d('  std::string GetTypeName() const override { return "dingodb.pb.%s.%s"; } static const ::google::protobuf::Descriptor* descriptor() { return nullptr; } const ::google::protobuf::Descriptor* GetDescriptor() const { return nullptr; } const ::google::protobuf::Reflection* GetReflection() const { return nullptr; }' % (p, C))
        for n, full in m.nested.items():
            d('  typedef %s %s;' % (full, n))
            e = enums.get((p, full))
            if e:
                for vn, vv in e.vals: d('  static constexpr %s %s = %s_%s;' % (full, vn, full, vn))
                d('  template <class T> static const std::string& %s_Name(T v) { return ::google::protobuf::EmptyName(); }' % n)
        for on in m.oneofs:
            d('  enum %sCase { %s, %s_NOT_SET = 0 };' % (camel(on), ', '.join('k%s = %d' % (camel(f['name']), i + 1) for i, (f, t) in enumerate(F) if f['one'] == on), on.upper()))
            d('  %sCase %s_case() const { return (%sCase)%s_case_; } void clear_%s(); int %s_case_ = 0;' % (camel(on), on, camel(on), on, on, on))
        dfl = []
        for f, t in F:
            M = f['name'] + '_'
            if f['map'] or f['rep']: dfl.append('d &= %s.size() == 0;' % M)
            elif t[0] == 'string': dfl.append('d &= %s.empty();' % M + (' d &= !has_%s;' % M if f['opt'] else ''))
            elif t[0] in ('scalar', 'enum'): dfl.append('d &= %s == %s;' % (M, '(%s)0' % t[1]) + (' d &= !has_%s;' % M if f['opt'] else ''))
            else: dfl.append('d &= %s.p == nullptr;' % M)
        enc = []; dec = []; mrg = []; clr = []; eq = []; swp = []
        for idx, (f, t) in enumerate(F):
            n = f['name']; one = f['one']; M = n + '_'
            d('  static constexpr int k%sFieldNumber = %d;' % (camel(n), idx + 1))
            setone = ('if (%s_case_ != k%s) { clear_%s(); %s_case_ = k%s; } ' % (one, camel(n), one, one, camel(n))) if one else ''
            if t[0] == 'map':
                kt = t[1][1]; vt = t[2][1]
                d('  ::google::protobuf::Map<%s, %s> %s; const ::google::protobuf::Map<%s, %s>& %s() const { return %s; } ::google::protobuf::Map<%s, %s>* mutable_%s() { return &%s; } int %s_size() const { return (int)%s.size(); } void clear_%s() { %s.clear(); }' % (kt, vt, M, kt, vt, n, M, kt, vt, n, M, n, M, n, M))
                enc.append('w.U32((uint32_t)%s.size()); for (auto& e : %s) { w.Any(e.first); w.Any(e.second); }' % (M, M))
                dec.append('{ uint32_t c; if (!r.U32(c)) return false; for (uint32_t i = 0; i < c; i++) { %s k{}; if (!r.Any(k)) return false; if (!r.Any(%s[k])) return false; } }' % (kt, M))
                mrg.append('for (auto& e : o.%s) %s[e.first] = e.second;' % (M, M)); clr.append('%s.clear();' % M); eq.append('%s == o.%s' % (M, M)); swp.append('std::swap(%s, o->%s);' % (M, M)); continue
            if f['rep']:
                ct = t[1]
                if t[0] in ('scalar', 'enum'):
                    d('  ::google::protobuf::RepeatedField<%s> %s; int %s_size() const { return %s.size(); } %s %s(int i) const { return (%s)%s.Get(i); } void set_%s(int i, %s v) { %s.Set(i, v); } void add_%s(%s v) { %s.Add(v); } void clear_%s() { %s.Clear(); } const ::google::protobuf::RepeatedField<%s>& %s() const { return %s; } ::google::protobuf::RepeatedField<%s>* mutable_%s() { return &%s; }' % ('int' if t[0] == 'enum' else ct, M, n, M, ct, n, ct, M, n, ct, M, n, ct, M, n, M, 'int' if t[0] == 'enum' else ct, n, M, 'int' if t[0] == 'enum' else ct, n, M))
                elif t[0] == 'string':
                    d('  ::google::protobuf::RepeatedPtrField<std::string> %s; int %s_size() const { return %s.size(); } const std::string& %s(int i) const { return %s.Get(i); } std::string* mutable_%s(int i) { return %s.Mutable(i); } void set_%s(int i, const std::string& v) { *%s.Mutable(i) = v; } std::string* add_%s() { return %s.Add(); } void add_%s(const std::string& v) { *%s.Add() = v; } void add_%s(std::string&& v) { *%s.Add() = std::move(v); } void add_%s(const char* v) { *%s.Add() = v; } void add_%s(const char* v, size_t l) { %s.Add()->assign(v, l); } void clear_%s() { %s.Clear(); } const ::google::protobuf::RepeatedPtrField<std::string>& %s() const { return %s; } ::google::protobuf::RepeatedPtrField<std::string>* mutable_%s() { return &%s; }' % (M, n, M, n, M, n, M, n, M, n, M, n, M, n, M, n, M, n, M, n, M, n, M, n, M))
                else:
                    d('  ::google::protobuf::RepeatedPtrField<%s> %s; int %s_size() const { return %s.size(); } const %s& %s(int i) const { return %s.Get(i); } %s* mutable_%s(int i) { return %s.Mutable(i); } %s* add_%s() { return %s.Add(); } void clear_%s() { %s.Clear(); } const ::google::protobuf::RepeatedPtrField<%s>& %s() const { return %s; } ::google::protobuf::RepeatedPtrField<%s>* mutable_%s() { return &%s; }' % (ct, M, n, M, ct, n, M, ct, n, M, ct, n, M, n, M, ct, n, M, ct, n, M))
                enc.append('w.U32((uint32_t)%s.size()); for (auto& e : %s) w.Any(e);' % (M, M))
                if t[0] in ('scalar', 'enum'): dec.append('{ uint32_t c; if (!r.U32(c)) return false; for (uint32_t i = 0; i < c; i++) { %s e{}; if (!r.Any(e)) return false; %s.Add(e); } }' % ('int' if t[0] == 'enum' else ct, M))
                else: dec.append('{ uint32_t c; if (!r.U32(c)) return false; for (uint32_t i = 0; i < c; i++) if (!r.Any(*%s.Add())) return false; }' % M)
                mrg.append('%s.MergeFrom(o.%s);' % (M, M)); clr.append('%s.Clear();' % M); eq.append('%s.Eq(o.%s)' % (M, M)); swp.append('std::swap(%s, o->%s);' % (M, M)); continue
            if t[0] in ('scalar', 'enum'):
                ct = t[1]; df = '(%s)0' % ct if t[0] == 'scalar' else '(%s)%d' % (ct, enums[t[2]].vals[0][1])
                getv = ('%s_case_ == k%s ? %s : %s' % (one, camel(n), M, df)) if one else M
                d('  %s %s = %s; %s %s() const { return %s; } void set_%s(%s v) { %s%s = v; %s} void clear_%s() { %s = %s; %s}' % (ct, M, df, ct, n, getv, n, ct, setone, M, ('has_%s = true; ' % M) if f['opt'] else '', n, M, df, ('has_%s = false; ' % M) if f['opt'] else (('if (%s_case_ == k%s) %s_case_ = 0; ' % (one, camel(n), one)) if one else '')))
                if f['opt']: d('  bool has_%s = false; bool has_%s() const { return has_%s; }' % (M, n, M))
                if one: d('  bool has_%s() const { return %s_case_ == k%s; }' % (n, one, camel(n)))
                enc.append('w.Any(%s);' % M + (' w.Any(has_%s);' % M if f['opt'] else '')); dec.append('if (!r.Any(%s)) return false;' % M + (' if (!r.Any(has_%s)) return false;' % M if f['opt'] else ''))
                mrg.append(('if (o.has_%s) set_%s(o.%s);' % (M, n, M)) if f['opt'] else ('if (o.has_%s()) set_%s(o.%s);' % (n, n, M)) if one else '%s = ::google::protobuf::MergeScalar(%s, o.%s);' % (M, M, M))
                clr.append('%s = %s;' % (M, df) + ('has_%s = false;' % M if f['opt'] else '')); eq.append('%s == o.%s' % (M, M)); swp.append('std::swap(%s, o->%s);' % (M, M) + (' std::swap(has_%s, o->has_%s);' % (M, M) if f['opt'] else ''))
            elif t[0] == 'string':
                hs = ('has_%s = true; ' % M) if f['opt'] else ''
                d('  std::string %s; const std::string& %s() const { return %s; } std::string* mutable_%s() { %s%sreturn &%s; } void clear_%s() { %s.clear(); %s}' % (M, n, M, n, setone, hs, M, n, M, ('has_%s = false; ' % M) if f['opt'] else (('if (%s_case_ == k%s) %s_case_ = 0; ' % (one, camel(n), one)) if one else '')))
                d('  void set_%s(const std::string& v) { %s%s%s = v; } void set_%s(std::string&& v) { %s%s%s = std::move(v); } void set_%s(const char* v) { %s%s%s = v; } void set_%s(std::string_view v) { %s%s%s.assign(v.data(), v.size()); } void set_%s(const void* v, size_t l) { %s%s%s.assign((const char*)v, l); } std::string* release_%s() { auto* r = new std::string(std::move(%s)); %s.clear(); return r; } void set_allocated_%s(std::string* v) { %s%s%s = v ? std::move(*v) : std::string(); delete v; }' % (n, setone, hs, M, n, setone, hs, M, n, setone, hs, M, n, setone, hs, M, n, setone, hs, M, n, M, M, n, setone, hs, M))
                if f['opt']: d('  bool has_%s = false; bool has_%s() const { return has_%s; }' % (M, n, M))
                if one: d('  bool has_%s() const { return %s_case_ == k%s; }' % (n, one, camel(n)))
                enc.append('w.Any(%s);' % M + (' w.Any(has_%s);' % M if f['opt'] else '')); dec.append('if (!r.Any(%s)) return false;' % M + (' if (!r.Any(has_%s)) return false;' % M if f['opt'] else ''))
                mrg.append(('if (o.has_%s) set_%s(o.%s);' % (M, n, M)) if f['opt'] else ('if (o.has_%s()) set_%s(o.%s);' % (n, n, M)) if one else 'if (!o.%s.empty()) %s = o.%s;' % (M, M, M))
                clr.append('%s.clear();' % M + ('has_%s = false;' % M if f['opt'] else '')); eq.append('%s == o.%s' % (M, M)); swp.append('std::swap(%s, o->%s);' % (M, M) + (' std::swap(has_%s, o->has_%s);' % (M, M) if f['opt'] else ''))
            else:
                ct = t[1]
                d('  ::google::protobuf::SubMsg<%s> %s; bool has_%s() const { return %s.p != nullptr%s; } const %s& %s() const; %s* mutable_%s() { %sreturn %s.mut(); } void clear_%s() { %s.reset(); %s} %s* release_%s() { return %s.release(); } void set_allocated_%s(%s* v) { %s%s.adopt(v); }' % (ct, M, n, M, (' && %s_case_ == k%s' % (one, camel(n))) if one else '', ct, n, ct, n, setone, M, n, M, ('if (%s_case_ == k%s) %s_case_ = 0; ' % (one, camel(n), one)) if one else '', ct, n, M, n, ct, setone, M))
                b('const %s& %s::%s::%s() const { return %s.p ? *%s.p : %s::default_instance(); }' % (ct, p, C, n, M, M, ct))
                enc.append('w.Any((bool)(%s.p != nullptr)); if (%s.p) w.Any(*%s.p);' % (M, M, M)); dec.append('{ bool h; if (!r.Any(h)) return false; if (h && !r.Any(*%s.mut())) return false; }' % M)
                mrg.append('if (o.%s.p) mutable_%s()->MergeFrom(*o.%s.p);' % (M, n, M)); clr.append('%s.reset();' % M); eq.append('((%s.p == nullptr) == (o.%s.p == nullptr)) && (!%s.p || %s.p->Eq(*o.%s.p))' % (M, M, M, M, M)); swp.append('std::swap(%s.p, o->%s.p);' % (M, M))
        for on in m.oneofs:
            enc.append('w.Any(%s_case_);' % on); dec.append('if (!r.Any(%s_case_)) return false;' % on); clr.append('%s_case_ = 0;' % on); swp.append('std::swap(%s_case_, o->%s_case_);' % (on, on)); eq.append('%s_case_ == o.%s_case_' % (on, on))
            b('void %s::%s::clear_%s() { switch (%s_case_) { %s default: break; } %s_case_ = 0; }' % (p, C, on, on, ' '.join('case k%s: clear_%s(); break;' % (camel(f['name']), f['name']) for f, t in F if f['one'] == on), on))
        d('}; }')
        q = '%s::%s' % (p, C)
        b('%s::%s() {} %s::~%s() {} %s::%s(const %s& o) : ::google::protobuf::Message() { *this = o; } %s::%s(%s&& o) noexcept { Swap(&o); } %s& %s::operator=(%s&& o) noexcept { if (this != &o) { Clear(); Swap(&o); } return *this; }' % (q, C, q, C, q, C, C, q, C, C, q, q, C))
        asg = []
        for f, t in F:
            M = f['name'] + '_'
            asg.append('%s = o.%s;' % (M, M) + (' has_%s = o.has_%s;' % (M, M) if f['opt'] and t[0] in ('scalar', 'enum', 'string') and not f['rep'] else ''))
        for on in m.oneofs: asg.append('%s_case_ = o.%s_case_;' % (on, on))
        b('%s& %s::operator=(const %s& o) { if (this == &o) return *this; %s return *this; }' % (q, q, C, ' '.join(asg)))
        b('const %s& %s::default_instance() { static %s* d = new %s(); return *d; }' % (q, q, C, C))
        b('void %s::MergeFrom(const %s& o) { %s }' % (q, C, ' '.join(mrg)))
        b('void %s::Swap(%s* o) { if (o == this) return; %s }' % (q, C, ' '.join(swp)))
        b('void %s::Clear() { %s }' % (q, ' '.join(clr)))
        b('void %s::Enc(::google::protobuf::Writer& w) const { %s }' % (q, ' '.join(enc)))
        b('bool %s::Dec(::google::protobuf::Reader& r) { %s return true; }' % (q, ' '.join(dec)))
        b('bool %s::Def() const { bool d = true; %s return d; }' % (q, ' '.join(dfl)))
        b('bool %s::Eq(const %s& o) const { return %s; }' % (q, C, ' && '.join(['true'] + eq)))
def services():
    import glob
    known = set()
    known.update(msgs.keys())
    for h in sorted(glob.glob(os.path.join(SRC, 'server/*_service.h'))):
        t = re.sub(r'//[^\n]*', '', open(h, errors='replace').read())
        for m in re.finditer(r'class (\w+)\s*:\s*public\s+(?:::)?(?:dingodb::)?pb::(\w+)::(\w+)\s*\{(.*?)\n\};', t, re.S):
            pkg, svc, meth = m.group(2), m.group(3), []
            if (pkg, svc) in msgs: continue
            for q in re.finditer(r'void (\w+)\(\s*(?:::)?google::protobuf::RpcController\s*\*\s*\w*,\s*const\s+([\w:]+)\s*\*\s*\w*,\s*([\w:]+)\s*\*\s*\w*,\s*(?:::)?google::protobuf::Closure\s*\*\s*\w*\)\s*override', m.group(4), re.S):
                a = []
                for ty in q.groups()[1:]:
                    ty = re.sub(r'^(::)?(dingodb::)?(pb::)?', '', ty); p2, c2 = ty.split('::') if '::' in ty else (pkg, ty)
                    if (p2, c2) in enums: a.append('%s::%s' % (p2, c2)); continue
                    if (p2, c2) not in known: known.add((p2, c2)); w('namespace dingodb { namespace pb { namespace %s { class %s; } } }' % (p2, c2))
                    a.append('::dingodb::pb::%s::%s' % (p2, c2))
                if any(tuple(x.split('::')[-2:]) in enums for x in a): continue
                meth.append('  virtual void %s(::google::protobuf::RpcController*, const %s*, %s*, ::google::protobuf::Closure*) {}' % (q.group(1), a[0], a[1]))
            w('namespace dingodb { namespace pb { namespace %s { class %s : public ::google::protobuf::Service { public: virtual ~%s() = default;\n%s\n}; } } }' % (pkg, svc, svc, '\n'.join(meth)))
o += decl
w('} }')
services()
os.makedirs(os.path.join(out, 'proto'), exist_ok=True)
N = 8; per = (len(body) + N - 1) // N   # the out-of-line members: compiled once, shared by every check
for k in range(N): open(os.path.join(out, 'proto', 'pb_bodies_%d.cc' % k), 'w').write('#include "proto/all.pb.h"\nnamespace dingodb { namespace pb {\n' + '\n'.join(body[k * per:(k + 1) * per]) + '\n} }\n')
open(os.path.join(out, 'proto', 'all.pb.h'), 'w').write('\n'.join(o) + '\n')
for n in ['common','error','coordinator','coordinator_internal','store','store_internal','meta','index','raft','node','version','debug','document','stream','push','cluster_stat','file_service','util','diskann']:
    open(os.path.join(out, 'proto', n + '.pb.h'), 'w').write('#pragma once\n#include "proto/all.pb.h"\n')
