// irx: reads LLVM bitcode of every translation unit of the code base, links it into one program,
// makes the exceptional control flow (error()/error_catch()/defer/errdefer) explicit,
// and dumps functions (optionally with helpers inlined) as SSA facts in JSON.
//
// Nothing is executed: this is a front end for the dataflow rules in rules/*.py.
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Path.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/JumpThreading.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>

using namespace llvm;
using std::string;
using std::vector;
using std::map;
using std::set;

static std::unique_ptr<Module> M;
static set<string> Keep;
static vector<string> Entries;
static set<string> NoThrow;   // functions assumed not to raise (logging)
static string Root = "/repo/";

static string relfile(const string& dir, const string& file)
{
	string f = file;
	if (!f.empty() && f[0] != '/')
		f = dir + "/" + f;
	// normalise
	SmallString<256> p(f);
	sys::path::remove_dots(p, true);
	f = p.str().str();
	if (f.compare(0, Root.size(), Root) == 0)
		f = f.substr(Root.size());
	return f;
}

static string fileOf(const DIScope* s)
{
	if (!s) return "";
	return relfile(s->getDirectory().str(), s->getFilename().str());
}

static bool endsWith(const string& s, const string& e)
{
	return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0;
}

static string baseName(const string& s)
{
	auto p = s.rfind('/');
	return p == string::npos ? s : s.substr(p + 1);
}

// ---------------------------------------------------------------- struct field names

struct FieldInfo { string name; string type; uint64_t off; };
static const DataLayout* DLp;
static map<string, const DICompositeType*> DIStruct;   // by tag/typedef name

static string stripStruct(StringRef n)
{
	string s = n.str();
	for (auto p : {"struct.", "union."})
		if (s.compare(0, strlen(p), p) == 0) { s = s.substr(strlen(p)); break; }
	// numeric suffix of the linker
	auto d = s.rfind('.');
	if (d != string::npos && d + 1 < s.size() &&
	    std::all_of(s.begin() + d + 1, s.end(), ::isdigit) && s.compare(0, 4, "anon") != 0)
		s = s.substr(0, d);
	return s;
}

static const DIType* stripTypedef(const DIType* t)
{
	while (t) {
		if (auto d = dyn_cast<DIDerivedType>(t)) {
			auto tag = d->getTag();
			if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type ||
			    tag == dwarf::DW_TAG_volatile_type || tag == dwarf::DW_TAG_atomic_type) {
				t = d->getBaseType();
				continue;
			}
		}
		break;
	}
	return t;
}

static string ditypeName(const DIType* t, int depth = 0)
{
	if (!t) return "void";
	if (depth > 6) return "?";
	if (auto d = dyn_cast<DIDerivedType>(t)) {
		switch (d->getTag()) {
		case dwarf::DW_TAG_pointer_type: return ditypeName(d->getBaseType(), depth + 1) + "*";
		case dwarf::DW_TAG_typedef: return d->getName().str();
		case dwarf::DW_TAG_const_type:
		case dwarf::DW_TAG_volatile_type:
		case dwarf::DW_TAG_atomic_type: return ditypeName(d->getBaseType(), depth + 1);
		default: return d->getName().str();
		}
	}
	if (auto c = dyn_cast<DICompositeType>(t)) {
		if (c->getTag() == dwarf::DW_TAG_array_type)
			return ditypeName(c->getBaseType(), depth + 1) + "[]";
		return c->getName().str();
	}
	if (isa<DISubroutineType>(t)) return "fn";
	return t->getName().str();
}

static void collectTypes(Module& m)
{
	DebugInfoFinder F;
	F.processModule(m);
	for (auto t : F.types()) {
		if (auto c = dyn_cast<DICompositeType>(t)) {
			if ((c->getTag() == dwarf::DW_TAG_structure_type ||
			     c->getTag() == dwarf::DW_TAG_union_type) && !c->isForwardDecl() &&
			    !c->getName().empty())
				DIStruct[c->getName().str()] = c;
		}
		if (auto d = dyn_cast<DIDerivedType>(t)) {
			if (d->getTag() == dwarf::DW_TAG_typedef) {
				auto b = stripTypedef(d->getBaseType());
				if (auto c = dyn_cast_or_null<DICompositeType>(b))
					if (c->getName().empty() && !DIStruct.count(d->getName().str()) &&
					    c->getTag() == dwarf::DW_TAG_structure_type)
						DIStruct[d->getName().str()] = c;
			}
		}
	}
}

static string fieldName(StructType* st, unsigned idx)
{
	static map<std::pair<StructType*, unsigned>, string> cache;
	auto key = std::make_pair(st, idx);
	auto it = cache.find(key);
	if (it != cache.end()) return it->second;
	string r = "f" + std::to_string(idx);
	if (st->hasName()) {
		auto name = stripStruct(st->getName());
		auto d = DIStruct.find(name);
		if (d != DIStruct.end() && !st->isOpaque()) {
			auto& DL = *DLp;
			uint64_t off = DL.getStructLayout(st)->getElementOffset(idx) * 8;
			for (auto e : d->second->getElements()) {
				auto m = dyn_cast<DIDerivedType>(e);
				if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
				uint64_t mo = m->getOffsetInBits();
				if (m->isBitField()) mo = mo / 8 * 8;
				if (mo == off) {
					r = m->getName().str();
					if (r.empty()) r = "anon" + std::to_string(off / 8);
					break;
				}
			}
		}
	}
	cache[key] = r;
	return r;
}

static string structName(StructType* st)
{
	if (!st->hasName()) return "anon";
	return stripStruct(st->getName());
}

// ---------------------------------------------------------------- linking

static void prepareModule(Module& m, map<string, set<string>>& fstat, map<string, set<string>>& gstat, bool apply)
{
	for (auto& f : m) {
		if (f.isDeclaration()) continue;
		auto sp = f.getSubprogram();
		if (!sp) continue;
		string file = fileOf(sp);
		if (!apply) {
			fstat[f.getName().str()].insert(endsWith(file, ".h") || file.find('.') == string::npos || !f.hasLocalLinkage() ?
			                                file : file);
			continue;
		}
		if (f.hasLocalLinkage()) {
			bool header = !endsWith(file, ".c");
			string n = f.getName().str();
			if (fstat[n].size() > 1)
				f.setName(n + "@" + baseName(file));
			if (header) {
				f.setLinkage(GlobalValue::WeakODRLinkage);
				f.setVisibility(GlobalValue::DefaultVisibility);
			}
		}
	}
	for (auto& g : m.globals()) {
		if (!g.hasLocalLinkage() || g.getName().starts_with(".str") || g.getName().starts_with("__"))
			continue;
		string mod = baseName(m.getSourceFileName());
		if (!apply) { gstat[g.getName().str()].insert(mod); continue; }
		if (gstat[g.getName().str()].size() > 1)
			g.setName(g.getName().str() + "@" + mod);
	}
}

static void fieldCalls(Module& mod, Function& F);
static void collectConst(Constant* c, const string& key);
struct Dump;
static string GlobalsJson;
static void dumpGlobals(Module& m);

// ---------------------------------------------------------------- helpers on IR

static const Value* strip(const Value* v) { return v->stripPointerCasts(); }
static Value* strip(Value* v) { return v->stripPointerCasts(); }

static Function* calledFn(CallBase* c)
{
	return dyn_cast<Function>(strip(c->getCalledOperand()));
}

static const Value* baseObj(const Value* v)
{
	for (int i = 0; i < 64; i++) {
		v = strip(v);
		if (auto c = dyn_cast<CallBase>(v)) {
			auto f = dyn_cast<Function>(strip(c->getCalledOperand()));
			if (f && f->getName().starts_with("vp.")) { v = c->getArgOperand(0); continue; }
			return v;
		}
		if (auto g = dyn_cast<GEPOperator>(v)) { v = g->getPointerOperand(); continue; }
		return v;
	}
	return v;
}

static bool gepField(const Value* p, string& st, string& field, const Value** base = nullptr)
{
	if (auto c = dyn_cast<CallBase>(strip(p))) {
		auto f = dyn_cast<Function>(strip(c->getCalledOperand()));
		if (!f) return false;
		auto n = f->getName();
		if (n == "vp.elem") return gepField(c->getArgOperand(0), st, field, base);
		if (!n.starts_with("vp.field.")) return false;
		n = n.substr(9);
		auto d = n.rfind('.');
		st = n.substr(0, d).str();
		field = n.substr(d + 1).str();
		if (base) *base = c->getArgOperand(0);
		return true;
	}
	auto g = dyn_cast<GEPOperator>(p);
	if (!g) return false;
	StructType* last = nullptr;
	unsigned idx = 0;
	for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
		if (auto s = it.getStructTypeOrNull()) {
			last = s;
			idx = cast<ConstantInt>(it.getOperand())->getZExtValue();
		}
	if (!last) return false;
	st = structName(last);
	field = fieldName(last, idx);
	if (base) *base = g->getPointerOperand();
	return true;
}

static string allocaType(const AllocaInst* a)
{
	if (auto md = a->getMetadata("vp.type"))
		return cast<MDString>(md->getOperand(0))->getString().str();
	return "";
}

static AllocaInst* allocaOf(Value* v, const char* type)
{
	auto a = dyn_cast<AllocaInst>(const_cast<Value*>(baseObj(v)));
	if (!a) return nullptr;
	if (allocaType(a) != type) return nullptr;
	return a;
}

static bool isSetjmp(CallBase* c)
{
	auto f = calledFn(c);
	if (!f) return false;
	auto n = f->getName();
	return n == "_setjmp" || n == "setjmp" || n == "__sigsetjmp" || n == "sigsetjmp";
}

// exception events of one instruction
enum EvKind { EV_NONE, EV_PUSH_H, EV_POP_H, EV_PUSH_D, EV_RUN_D };
struct Ev { EvKind kind = EV_NONE; AllocaInst* a = nullptr; };

static Ev eventOf(Instruction& I)
{
	Ev e;
	if (auto c = dyn_cast<CallBase>(&I)) {
		if (isSetjmp(c)) {
			auto a = allocaOf(c->getArgOperand(0), "Exception");
			if (a) { e.kind = EV_PUSH_H; e.a = a; }
			return e;
		}
		auto f = calledFn(c);
		if (f && f->getName() == "defer_runner") {
			auto a = allocaOf(c->getArgOperand(0), "Defer");
			if (a) { e.kind = EV_RUN_D; e.a = a; }
		}
		return e;
	}
	if (auto s = dyn_cast<StoreInst>(&I)) {
		string st, fl;
		if (!gepField(s->getPointerOperand(), st, fl)) return e;
		if (st == "ExceptionMgr" && fl == "last") {
			if (allocaOf(s->getValueOperand(), "Exception")) return e;  // arming
			if (I.getFunction()->getName() == "exception_mgr_init") return e;
			if (isa<ConstantPointerNull>(s->getValueOperand())) return e;
			e.kind = EV_POP_H;
			return e;
		}
		if (st == "Exception" && fl == "defer_stack") {
			if (auto a = allocaOf(s->getValueOperand(), "Defer")) { e.kind = EV_PUSH_D; e.a = a; }
		}
	}
	return e;
}

struct StEl { bool H; AllocaInst* a; bool operator==(const StEl& o) const { return H == o.H && a == o.a; } };
typedef vector<StEl> State;

struct Flow {
	map<BasicBlock*, State> in;
	vector<string> anomalies;
	bool interesting = false;
};

static void apply(State& s, const Ev& e, Flow* fl, Instruction* I)
{
	switch (e.kind) {
	case EV_NONE: break;
	case EV_PUSH_H: s.push_back({true, e.a}); break;
	case EV_POP_H: {
		// pop up to and including the topmost handler
		int i = (int)s.size() - 1;
		while (i >= 0 && !s[i].H) i--;
		if (i >= 0) s.resize(i);
		break;
	}
	case EV_PUSH_D: s.push_back({false, e.a}); break;
	case EV_RUN_D: {
		for (int i = (int)s.size() - 1; i >= 0; i--)
			if (!s[i].H && s[i].a == e.a) { s.erase(s.begin() + i); break; }
		break;
	}
	}
}

static string locStr(const DebugLoc& L)
{
	if (!L) return "?";
	return fileOf(cast<DIScope>(L->getScope())) + ":" + std::to_string(L.getLine());
}

static void flowStates(Function& F, Flow& fl)
{
	bool any = false;
	for (auto& I : instructions(F))
		if (eventOf(I).kind != EV_NONE) { any = true; break; }
	fl.interesting = any;
	if (!any) return;
	vector<BasicBlock*> wl{&F.getEntryBlock()};
	fl.in[&F.getEntryBlock()] = {};
	set<BasicBlock*> done;
	while (!wl.empty()) {
		auto b = wl.back(); wl.pop_back();
		if (!done.insert(b).second) continue;
		State s = fl.in[b];
		for (auto& I : *b) {
			apply(s, eventOf(I), &fl, &I);
			if (isa<ReturnInst>(&I)) {
				for (auto& e : s) if (e.H)
					fl.anomalies.push_back("return-inside-catch at " + locStr(I.getDebugLoc()));
			}
		}
		for (auto t : successors(b)) {
			auto it = fl.in.find(t);
			if (it == fl.in.end()) { fl.in[t] = s; wl.push_back(t); }
			else if (!(it->second == s)) {
				// differing states: unreachable tails are harmless
				size_t n = 0;
				while (n < s.size() && n < it->second.size() && s[n] == it->second[n]) n++;
				bool hd = false;
				for (size_t k = n; k < s.size(); k++) hd |= s[k].H;
				for (size_t k = n; k < it->second.size(); k++) hd |= it->second[k].H;
				if (hd && !isa<UnreachableInst>(t->getTerminator()))
					fl.anomalies.push_back("catch-region-escape into " + locStr(t->getFirstNonPHIOrDbg()->getDebugLoc()));
			}
		}
	}
}

// ---------------------------------------------------------------- points-to for function pointers

typedef string Node;   // "F:Struct.field", "A:fn:idx"
static map<Node, set<string>> PtsN;
static map<Node, set<Function*>> Pts;
static map<Node, set<Node>> Edges;

static void collectConst(Constant* c, const string& key)
{
	if (auto f = dyn_cast<Function>(strip(c))) { if (!key.empty()) PtsN[key].insert(f->getName().str()); return; }
	if (auto s = dyn_cast<ConstantStruct>(c)) {
		auto st = s->getType();
		for (unsigned i = 0; i < s->getNumOperands(); i++)
			collectConst(s->getOperand(i), "F:" + structName(st) + "." + fieldName(st, i));
		return;
	}
	if (auto a = dyn_cast<ConstantArray>(c)) {
		for (unsigned i = 0; i < a->getNumOperands(); i++)
			collectConst(a->getOperand(i), key);
	}
}

static void valueNodes(Value* v, set<Function*>& fs, set<Node>& ns, int depth = 0);

static map<AllocaInst*, vector<Value*>> AllocaStores;

static void valueNodes(Value* v, set<Function*>& fs, set<Node>& ns, int depth)
{
	v = strip(v);
	if (depth > 8) return;
	if (auto f = dyn_cast<Function>(v)) { fs.insert(f); return; }
	if (auto a = dyn_cast<Argument>(v)) {
		ns.insert("A:" + a->getParent()->getName().str() + ":" + std::to_string(a->getArgNo()));
		return;
	}
	if (auto p = dyn_cast<PHINode>(v)) { for (auto& o : p->incoming_values()) valueNodes(o, fs, ns, depth + 1); return; }
	if (auto s = dyn_cast<SelectInst>(v)) { valueNodes(s->getTrueValue(), fs, ns, depth + 1); valueNodes(s->getFalseValue(), fs, ns, depth + 1); return; }
	if (auto l = dyn_cast<LoadInst>(v)) {
		string st, fl;
		if (gepField(l->getPointerOperand(), st, fl)) { ns.insert("F:" + st + "." + fl); return; }
		if (auto a = dyn_cast<AllocaInst>(strip(l->getPointerOperand()))) {
			for (auto u : a->users())
				if (auto s = dyn_cast<StoreInst>(u))
					if (s->getPointerOperand() == a) valueNodes(s->getValueOperand(), fs, ns, depth + 1);
			return;
		}
		ns.insert("?");
	}
}

static void buildPts()
{
	for (auto& p : PtsN)
		for (auto& n : p.second)
			if (auto f = M->getFunction(n)) Pts[p.first].insert(f);
	auto flow = [&](Value* v, const Node& to) {
		if (!v->getType()->isPointerTy()) return;
		set<Function*> fs; set<Node> ns;
		valueNodes(v, fs, ns);
		for (auto f : fs) Pts[to].insert(f);
		for (auto& n : ns) if (n != "?") Edges[n].insert(to);
	};
	for (auto& F : *M)
		for (auto& I : instructions(F)) {
			if (auto s = dyn_cast<StoreInst>(&I)) {
				string st, fl;
				if (gepField(s->getPointerOperand(), st, fl)) flow(s->getValueOperand(), "F:" + st + "." + fl);
			}
			if (auto c = dyn_cast<CallBase>(&I)) {
				auto f = calledFn(c);
				if (f && !f->isDeclaration())
					for (unsigned i = 0; i < c->arg_size() && i < f->arg_size(); i++)
						flow(c->getArgOperand(i), "A:" + f->getName().str() + ":" + std::to_string(i));
			}
		}
	bool ch = true;
	while (ch) {
		ch = false;
		// indirect calls: arguments flow into the parameters of their targets
		for (auto& e : Edges) {
			auto it = Pts.find(e.first);
			if (it == Pts.end()) continue;
			auto src = it->second;
			for (auto& to : e.second) {
				auto& d = Pts[to];
				size_t n = d.size();
				d.insert(src.begin(), src.end());
				if (d.size() != n) ch = true;
			}
		}
	}
}

static set<Function*> targetsOf(CallBase* c, bool& unknown)
{
	set<Function*> r;
	if (auto f = calledFn(c)) { r.insert(f); return r; }
	if (c->isInlineAsm()) return r;
	set<Node> ns;
	valueNodes(c->getCalledOperand(), r, ns);
	for (auto& n : ns) {
		auto it = Pts.find(n);
		if (it != Pts.end()) r.insert(it->second.begin(), it->second.end());
	}
	// keep those with a compatible arity
	set<Function*> q;
	for (auto f : r) if (f->arg_size() == c->arg_size()) q.insert(f);
	if (q.empty()) unknown = true;
	return q;
}

// ---------------------------------------------------------------- may-throw

static set<Function*> MayThrow;
static map<CallBase*, std::pair<set<Function*>, bool>> CallTargets;

static bool callMayThrow(CallBase* c)
{
	if (isa<IntrinsicInst>(c) || c->isInlineAsm()) return false;
	auto f = calledFn(c);
	if (f) {
		if (f->getName() == "longjmp" || f->getName() == "_longjmp" || f->getName() == "siglongjmp") return true;
		if (f->getName() == "defer_runner") return false;
		return MayThrow.count(f);
	}
	bool unk = false;
	auto t = targetsOf(c, unk);
	for (auto g : t) if (MayThrow.count(g)) return true;
	if (!t.empty()) return false;
	// a callback nobody in the program sets may raise, unless it runs where raising is impossible
	if (auto ld = dyn_cast<LoadInst>(c->getCalledOperand()->stripPointerCasts())) {
		string sn, fl;
		if (gepField(ld->getPointerOperand(), sn, fl)) {
			auto n = sn + "." + fl;
			if (n == "Request.on_complete" || n == "Notify.on_notify" || n == "Udf.free" || n == "PartMgrIf.detach") return false;
		}
		return true;
	}
	auto p = dyn_cast<Argument>(c->getCalledOperand()->stripPointerCasts());
	return !p || !p->getParent()->getName().starts_with("hashtable_");
}

static void computeMayThrow()
{
	struct Site { CallBase* c; bool guarded; };
	map<Function*, vector<Site>> sites;
	map<Function*, vector<Function*>> deferred;
	for (auto& F : *M) {
		if (F.isDeclaration()) continue;
		Flow fl;
		flowStates(F, fl);
		for (auto& b : F) {
			State s;
			auto it = fl.in.find(&b);
			if (fl.interesting && it == fl.in.end()) continue;
			if (it != fl.in.end()) s = it->second;
			for (auto& I : b) {
				if (auto c = dyn_cast<CallBase>(&I)) {
					bool g = false;
					for (auto& e : s) g |= e.H;
					sites[&F].push_back({c, g});
				}
				// a deferred function runs as part of the function that defers it
				if (auto st = dyn_cast<StoreInst>(&I)) {
					string sn, fl2;
					if (gepField(st->getPointerOperand(), sn, fl2) && sn == "Defer" && fl2 == "function")
						if (auto g = dyn_cast<Function>(st->getValueOperand()->stripPointerCasts()))
							deferred[&F].push_back(g);
				}
				apply(s, eventOf(I), nullptr, &I);
			}
		}
	}
	bool ch = true;
	while (ch) {
		ch = false;
		for (auto& p : sites) {
			if (MayThrow.count(p.first) || NoThrow.count(p.first->getName().str())) continue;
			for (auto g : deferred[p.first])
				if (MayThrow.count(g)) { MayThrow.insert(p.first); ch = true; break; }
			if (MayThrow.count(p.first)) continue;
			for (auto& s : p.second)
				if (!s.guarded && callMayThrow(s.c)) { MayThrow.insert(p.first); ch = true; break; }
		}
	}
}

// ---------------------------------------------------------------- view construction

static FunctionCallee vpUnwind, vpThrows;
static set<string> NoRet;   // functions that never return (attribute removed: they leave through an exception)

static bool noReturn(CallBase* c)
{
	if (c->doesNotReturn()) return true;
	auto f = calledFn(c);
	return f && (f->doesNotReturn() || NoRet.count(f->getName().str()));
}

static void dropNoReturn()
{
	for (auto& F : *M)
		if (F.doesNotReturn() && (MayThrow.count(&F) || F.getName() == "longjmp" || F.getName() == "_longjmp")) {
			NoRet.insert(F.getName().str());
			F.removeFnAttr(Attribute::NoReturn);
		}
	for (auto& F : *M)
		for (auto& I : instructions(F))
			if (auto c = dyn_cast<CallBase>(&I)) {
				auto f = calledFn(c);
				if (f && NoRet.count(f->getName().str())) c->removeFnAttr(Attribute::NoReturn);
			}
}

static bool inlinable(Function* f, const set<string>& keep)
{
	if (!f || f->isDeclaration() || f->isVarArg()) return false;
	if (f->getName() == "defer_runner") return false;
	if (keep.count(f->getName().str())) return false;
	return true;
}

static int inlineAll(Function& F, const set<string>& keep, bool all, vector<string>& notes)
{
	struct W { CallBase* c; vector<Function*> stack; };
	vector<W> wl;
	for (auto& I : instructions(F))
		if (auto c = dyn_cast<CallBase>(&I)) wl.push_back({c, {}});
	int n = 0;
	while (!wl.empty()) {
		auto w = wl.back(); wl.pop_back();
		auto f = calledFn(w.c);
		if (!inlinable(f, keep)) continue;
		if (!all && !f->hasFnAttribute(Attribute::AlwaysInline)) continue;
		if (std::find(w.stack.begin(), w.stack.end(), f) != w.stack.end()) continue;
		if (w.stack.size() > 14) continue;
		if (F.getInstructionCount() > 60000) { notes.push_back("size-limit at " + f->getName().str()); continue; }
		if (w.c->getFunctionType() != f->getFunctionType()) continue;
		auto st = w.stack;
		st.push_back(f);
		InlineFunctionInfo ifi;
		auto r = InlineFunction(*w.c, ifi, false, nullptr, false);
		if (!r.isSuccess()) { continue; }
		n++;
		for (auto c : ifi.InlinedCallSites) wl.push_back({c, st});
	}
	return n;
}

static GlobalVariable* dummy = nullptr;

static void addExceptions(Function& F, vector<string>& anomalies)
{
	// inlined frames keep the first incarnation of allocas; clone per-inline is done by InlineFunction
	Flow fl;
	flowStates(F, fl);
	anomalies = fl.anomalies;

	auto& C = F.getContext();
	auto i8 = Type::getInt8Ty(C);
	auto ptr = PointerType::getUnqual(C);

	// scalar shadows
	map<AllocaInst*, AllocaInst*> trig, dargs;
	map<AllocaInst*, Function*> dfn;
	map<AllocaInst*, bool> derr;
	vector<AllocaInst*> allocas;
	for (auto& I : instructions(F)) if (auto a = dyn_cast<AllocaInst>(&I)) allocas.push_back(a);
	for (auto a : allocas) {
		auto n = allocaType(a);
		if (n != "Exception" && n != "Defer") continue;
		IRBuilder<> B(a);
		if (n == "Exception") trig[a] = B.CreateAlloca(i8, nullptr, "exc.triggered");
		else dargs[a] = B.CreateAlloca(ptr, nullptr, "defer.arg");
	}
	// collect sites first
	struct Site { CallBase* c; State s; };
	vector<Site> sites;
	struct Run { CallBase* c; AllocaInst* d; };
	vector<Run> runs;
	vector<CallBase*> jmps;
	vector<StoreInst*> trigStores; vector<LoadInst*> trigLoads; vector<StoreInst*> argStores;
	for (auto& b : F) {
		State s;
		auto it = fl.in.find(&b);
		bool live = !fl.interesting || it != fl.in.end();
		if (it != fl.in.end()) s = it->second;
		for (auto& I : b) {
			auto ev = eventOf(I);
			if (auto c = dyn_cast<CallBase>(&I)) {
				if (ev.kind == EV_PUSH_H) jmps.push_back(c);
				else if (ev.kind == EV_RUN_D) runs.push_back({c, ev.a});
				else if (live && callMayThrow(c)) sites.push_back({c, s});
			}
			apply(s, ev, nullptr, &I);
			string st, f;
			if (auto si = dyn_cast<StoreInst>(&I)) {
				if (gepField(si->getPointerOperand(), st, f)) {
					if (st == "Exception" && f == "triggered" && allocaOf(si->getPointerOperand(), "Exception")) trigStores.push_back(si);
					if (st == "Defer") {
						auto d = allocaOf(si->getPointerOperand(), "Defer");
						if (d) {
							if (f == "function") dfn[d] = dyn_cast<Function>(strip(si->getValueOperand()));
							if (f == "function_arg") argStores.push_back(si);
							if (f == "error_only")
								if (auto ci = dyn_cast<ConstantInt>(si->getValueOperand())) derr[d] = !ci->isZero();
						}
					}
				}
			}
			if (auto li = dyn_cast<LoadInst>(&I))
				if (gepField(li->getPointerOperand(), st, f) && st == "Exception" && f == "triggered" &&
				    allocaOf(li->getPointerOperand(), "Exception")) trigLoads.push_back(li);
		}
	}
	for (auto s : trigStores) { IRBuilder<> B(s); B.CreateStore(s->getValueOperand(), trig[allocaOf(s->getPointerOperand(), "Exception")]); s->eraseFromParent(); }
	for (auto l : trigLoads) { IRBuilder<> B(l); auto n = B.CreateLoad(i8, trig[allocaOf(l->getPointerOperand(), "Exception")]); l->replaceAllUsesWith(n); l->eraseFromParent(); }
	for (auto c : jmps) { IRBuilder<> B(c); B.CreateStore(ConstantInt::get(i8, 0), trig[allocaOf(c->getArgOperand(0), "Exception")]); }
	for (auto s : argStores) { IRBuilder<> B(s); B.CreateStore(s->getValueOperand(), dargs[allocaOf(s->getPointerOperand(), "Defer")]); }

	auto mkDefer = [&](IRBuilder<>& B, AllocaInst* d, const char* why) {
		auto f = dfn[d];
		auto arg = B.CreateLoad(ptr, dargs[d]);
		CallInst* c;
		if (f && f->arg_size() == 1 && f->getArg(0)->getType()->isPointerTy())
			c = B.CreateCall(f->getFunctionType(), f, {arg});
		else if (f)
			c = B.CreateCall(FunctionType::get(Type::getVoidTy(C), {ptr}, false), f, {arg});
		else
			c = B.CreateCall(FunctionType::get(Type::getVoidTy(C), {ptr}, false), B.CreateLoad(ptr, dargs[d]), {arg});
		c->setMetadata("vp.defer", MDNode::get(C, MDString::get(C, why)));
	};
	// normal scope exits
	for (auto& r : runs) {
		IRBuilder<> B(r.c);
		if (!derr[r.d]) mkDefer(B, r.d, "normal");
		r.c->eraseFromParent();
	}
	// handlers
	map<AllocaInst*, BasicBlock*> handler;
	for (auto c : jmps) {
		auto a = allocaOf(c->getArgOperand(0), "Exception");
		// setjmp result tested against 0 in this block
		auto br = dyn_cast<BranchInst>(c->getParent()->getTerminator());
		if (!br || !br->isConditional()) { anomalies.push_back("setjmp without test at " + locStr(c->getDebugLoc())); continue; }
		auto cmp = dyn_cast<ICmpInst>(br->getCondition());
		bool eq = cmp && cmp->getPredicate() == CmpInst::ICMP_EQ;
		auto zero = br->getSuccessor(eq ? 0 : 1), nonzero = br->getSuccessor(eq ? 1 : 0);
		handler[a] = nonzero;
		IRBuilder<> B(br);
		B.CreateBr(zero);
		br->eraseFromParent();
	}
	BasicBlock* unwindB = nullptr;
	auto getUnwind = [&]() {
		if (unwindB) return unwindB;
		unwindB = BasicBlock::Create(C, "vp.unwind", &F);
		IRBuilder<> B(unwindB);
		B.CreateCall(vpUnwind);
		B.CreateUnreachable();
		return unwindB;
	};
	for (auto& s : sites) {
		auto c = s.c;
		bool noret = noReturn(c);
		auto landing = BasicBlock::Create(C, "vp.landing", &F);
		IRBuilder<> L(landing);
		L.SetCurrentDebugLocation(c->getDebugLoc());
		State t = s.s;
		BasicBlock* target = nullptr;
		while (!t.empty()) {
			auto e = t.back(); t.pop_back();
			if (e.H) {
				target = handler[e.a];
				if (target) L.CreateStore(ConstantInt::get(i8, 1), trig[e.a]);
				break;
			}
			mkDefer(L, e.a, "unwind");
		}
		if (!target) target = getUnwind();
		L.CreateBr(target);
		auto b = c->getParent();
		auto cont = b->splitBasicBlock(std::next(c->getIterator()));
		auto term = b->getTerminator();
		IRBuilder<> B(term);
		B.SetCurrentDebugLocation(c->getDebugLoc());
		if (noret) B.CreateBr(landing);
		else {
			auto x = B.CreateCall(vpThrows);
			B.CreateCondBr(x, landing, cont);
		}
		term->eraseFromParent();
	}
	removeUnreachableBlocks(F);
}

// replace struct GEPs with opaque pure calls so that no pass erases the field names
static void fieldCalls(Module& mod, Function& F)
{
	vector<GetElementPtrInst*> geps;
	for (auto& I : instructions(F)) {
		if (auto g = dyn_cast<GetElementPtrInst>(&I)) geps.push_back(g);
		if (auto a = dyn_cast<AllocaInst>(&I)) {
			auto t = a->getAllocatedType();
			while (auto ar = dyn_cast<ArrayType>(t)) t = ar->getElementType();
			if (auto s = dyn_cast<StructType>(t))
				a->setMetadata("vp.type", MDNode::get(F.getContext(), MDString::get(F.getContext(), structName(s))));
		}
	}
	auto& C = F.getContext();
	auto ptr = PointerType::getUnqual(C);
	auto i64 = Type::getInt64Ty(C);
	auto pure = [&](FunctionCallee fc) {
		auto f = cast<Function>(fc.getCallee());
		f->setMemoryEffects(MemoryEffects::none());
		f->setDoesNotThrow(); f->setWillReturn();
		f->addFnAttr(Attribute::Speculatable); f->addFnAttr(Attribute::NoCallback); f->addFnAttr(Attribute::NoSync);
	};
	auto& DL = mod.getDataLayout();
	for (auto g : geps) {
		IRBuilder<> B(g);
		Value* cur = g->getPointerOperand();
		bool first = true;
		for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
			auto idx = it.getOperand();
			if (auto s = it.getStructTypeOrNull()) {
				unsigned n = cast<ConstantInt>(idx)->getZExtValue();
				auto fc = mod.getOrInsertFunction("vp.field." + structName(s) + "." + fieldName(s, n), ptr, ptr);
				pure(fc);
				cur = B.CreateCall(fc, {cur});
			} else {
				if (first) {
					auto ci = dyn_cast<ConstantInt>(idx);
					if (!(ci && ci->isZero()) || g->getNumIndices() == 1) {
						auto sz = DL.getTypeAllocSize(g->getSourceElementType());
						auto fc = mod.getOrInsertFunction("vp.index", ptr, ptr, i64, i64);
						pure(fc);
						cur = B.CreateCall(fc, {cur, B.CreateSExtOrTrunc(idx, i64), ConstantInt::get(i64, sz.getFixedValue())});
					}
				} else {
					auto sz = DL.getTypeAllocSize(it.getIndexedType());
					auto fc = mod.getOrInsertFunction("vp.elem", ptr, ptr, i64, i64);
					pure(fc);
					cur = B.CreateCall(fc, {cur, B.CreateSExtOrTrunc(idx, i64), ConstantInt::get(i64, sz.getFixedValue())});
				}
			}
			first = false;
		}
		if (cur != g) { g->replaceAllUsesWith(cur); g->eraseFromParent(); }
	}
}

static void optimize(Function& F, FunctionAnalysisManager& FAM)
{
	FAM.clear(F, F.getName());
	FunctionPassManager P;
	P.addPass(PromotePass());
	P.run(F, FAM);
	FAM.invalidate(F, PreservedAnalyses::none());
	FunctionPassManager P2;
	P2.addPass(EarlyCSEPass(false));
	P2.addPass(JumpThreadingPass(400));
	P2.addPass(EarlyCSEPass(false));
	P2.run(F, FAM);
	removeUnreachableBlocks(F);
	FAM.invalidate(F, PreservedAnalyses::none());
}

// ---------------------------------------------------------------- JSON

static string jq(StringRef s)
{
	string o; raw_string_ostream os(o);
	json::OStream J(os);
	J.value(json::fixUTF8(s));
	os.flush();
	return o;
}

struct Dump {
	raw_ostream& os;
	map<const Value*, int> id;
	Dump(raw_ostream& o) : os(o) {}

	void constant(const Constant* c, int depth = 0)
	{
		if (auto ci = dyn_cast<ConstantInt>(c)) {
			if (ci->getBitWidth() <= 64) os << "[\"c\"," << (ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue()) << "]";
			else { SmallString<64> w; ci->getValue().toStringUnsigned(w); os << "[\"c\"," << w << "]"; }
			return;
		}
		if (isa<ConstantPointerNull>(c)) { os << "[\"n\"]"; return; }
		if (isa<UndefValue>(c)) { os << "[\"u\"]"; return; }
		if (isa<ConstantAggregateZero>(c)) { os << "[\"z\"]"; return; }
		if (auto f = dyn_cast<ConstantFP>(c)) { SmallString<32> s; f->getValueAPF().toString(s); os << "[\"d\"," << jq(s) << "]"; return; }
		if (auto f = dyn_cast<Function>(c)) { os << "[\"f\"," << jq(f->getName()) << "]"; return; }
		if (auto g = dyn_cast<GlobalVariable>(c)) {
			if (g->hasInitializer() && g->isConstant() && g->hasPrivateLinkage())
				if (auto d = dyn_cast<ConstantDataArray>(g->getInitializer()))
					if (d->isCString()) { os << "[\"s\"," << jq(d->getAsCString()) << "]"; return; }
			if (g->hasInitializer() && g->isConstant() && g->hasPrivateLinkage() && isa<ConstantAggregateZero>(g->getInitializer()))
				if (auto t = dyn_cast<ArrayType>(g->getValueType()))
					if (t->getElementType()->isIntegerTy(8) && t->getNumElements() == 1) { os << "[\"s\",\"\"]"; return; }
			os << "[\"g\"," << jq(g->getName()) << "]";
			return;
		}
		if (auto e = dyn_cast<ConstantExpr>(c)) {
			string st, fl; const Value* base;
			if (gepField(e, st, fl, &base)) {
				os << "[\"fld\","; constant(cast<Constant>(base), depth + 1); os << "," << jq(st + "." + fl) << "]";
				return;
			}
			os << "[\"e\",\"" << e->getOpcodeName() << "\"";
			for (auto& o : e->operands()) { os << ","; if (depth < 4) constant(cast<Constant>(o), depth + 1); else os << "0"; }
			os << "]";
			return;
		}
		os << "[\"k\"]";
	}
	void init(const Constant* c, int depth = 0)
	{
		if (auto s = dyn_cast<ConstantStruct>(c)) {
			os << "{\"st\":" << jq(structName(s->getType())) << ",\"f\":{";
			for (unsigned i = 0; i < s->getNumOperands(); i++) {
				if (i) os << ",";
				os << jq(fieldName(s->getType(), i)) << ":";
				init(s->getOperand(i), depth + 1);
			}
			os << "}}";
			return;
		}
		if (auto a = dyn_cast<ConstantArray>(c)) {
			os << "{\"ar\":[";
			for (unsigned i = 0; i < a->getNumOperands(); i++) { if (i) os << ","; init(a->getOperand(i), depth + 1); }
			os << "]}";
			return;
		}
		if (auto a = dyn_cast<ConstantDataSequential>(c)) {
			if (a->isCString()) { os << "[\"s\"," << jq(a->getAsCString()) << "]"; return; }
			os << "{\"ar\":[";
			for (unsigned i = 0; i < a->getNumElements(); i++) {
				if (i) os << ",";
				if (a->getElementType()->isIntegerTy()) os << "[\"c\"," << a->getElementAsAPInt(i).getSExtValue() << "]";
				else os << "[\"k\"]";
			}
			os << "]}";
			return;
		}
		constant(c, depth);
	}
	void operand(const Value* v)
	{
		if (auto c = dyn_cast<Constant>(v)) { constant(c); return; }
		if (auto a = dyn_cast<Argument>(v)) { os << "[\"a\"," << a->getArgNo() << "]"; return; }
		if (isa<Instruction>(v)) { os << "[\"v\"," << id[v] << "]"; return; }
		if (isa<MetadataAsValue>(v)) { os << "[\"m\"]"; return; }
		if (auto b = dyn_cast<BasicBlock>(v)) { os << "[\"b\"," << id[b] << "]"; return; }
		if (isa<InlineAsm>(v)) { os << "[\"asm\"]"; return; }
		os << "[\"?\"]";
	}
	static string ty(Type* t)
	{
		if (t->isPointerTy()) return "p";
		if (t->isVoidTy()) return "v";
		if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
		if (auto s = dyn_cast<StructType>(t)) return s->hasName() ? "S:" + structName(s) : "S";
		if (auto a = dyn_cast<ArrayType>(t)) return "[" + std::to_string(a->getNumElements()) + "]" + ty(a->getElementType());
		string o; raw_string_ostream os(o); t->print(os); return o;
	}
	void loc(const Instruction& I)
	{
		auto L = I.getDebugLoc();
		if (!L) { os << "null"; return; }
		// innermost first: [file,line,function], ...
		os << "[";
		bool first = true;
		for (const DILocation* d = L.get(); d; d = d->getInlinedAt()) {
			if (!first) os << ",";
			first = false;
			auto sp = d->getScope()->getSubprogram();
			os << "[" << jq(fileOf(d->getScope())) << "," << d->getLine() << "," << jq(sp ? sp->getName() : "") << "]";
		}
		os << "]";
	}
	void function(Function& F, const string& name)
	{
		id.clear();
		int n = 0;
		for (auto& b : F) id[&b] = n++;
		n = 0;
		for (auto& I : instructions(F)) id[&I] = n++;
		auto sp = F.getSubprogram();
		os << "{\"name\":" << jq(name);
		if (sp) os << ",\"src\":" << jq(sp->getName()) << ",\"file\":" << jq(fileOf(sp)) << ",\"line\":" << sp->getLine();
		os << ",\"ret\":" << jq(ty(F.getReturnType()));
		if (sp && sp->getType() && sp->getType()->getTypeArray().size()) {
			os << ",\"sig\":[";
			bool f = true;
			for (auto t : sp->getType()->getTypeArray()) { if (!f) os << ","; f = false; os << jq(ditypeName(t)); }
			os << "]";
		}
		os << ",\"params\":[";
		for (unsigned i = 0; i < F.arg_size(); i++) { if (i) os << ","; os << jq(F.getArg(i)->getName()); }
		os << "],\"internal\":" << ((F.getSubprogram() && F.getSubprogram()->isLocalToUnit()) ? "true" : "false") << ",\"noreturn\":" << (F.doesNotReturn() || NoRet.count(name) ? "true" : "false");
		os << ",\"blocks\":[";
		bool fb = true;
		for (auto& b : F) {
			if (!fb) os << ",";
			fb = false;
			os << "[";
			bool fi = true;
			for (auto& I : b) {
				if (isa<DbgInfoIntrinsic>(&I)) continue;
				if (auto ii = dyn_cast<IntrinsicInst>(&I)) {
					auto iid = ii->getIntrinsicID();
					if (iid == Intrinsic::lifetime_start || iid == Intrinsic::lifetime_end) continue;
				}
				if (!fi) os << ",\n";
				fi = false;
				inst(I);
			}
			os << "]";
		}
		os << "]}";
	}
	void inst(Instruction& I)
	{
		os << "{\"i\":" << id[&I] << ",\"o\":\"" << I.getOpcodeName() << "\"";
		if (!I.getType()->isVoidTy()) os << ",\"t\":" << jq(ty(I.getType()));
		if (I.hasName()) os << ",\"n\":" << jq(I.getName());
		if (auto c = dyn_cast<CallBase>(&I)) {
			auto f = calledFn(c);
			os << ",\"f\":";
			if (f) os << jq(f->getName());
			else {
				operand(c->getCalledOperand());
				bool unk = false;
				auto t = targetsOf(c, unk);
				// values were rewritten: resolve through the field call
				if (auto l = dyn_cast<LoadInst>(strip(c->getCalledOperand())))
					if (auto fc = dyn_cast<CallBase>(l->getPointerOperand()))
						if (auto ff = calledFn(fc))
							if (ff->getName().starts_with("vp.field.")) {
								auto it = Pts.find("F:" + ff->getName().substr(9).str());
								if (it != Pts.end()) for (auto g : it->second) if (g->arg_size() == c->arg_size()) t.insert(g);
							}
				os << ",\"tg\":[";
				bool first = true;
				for (auto g : t) { if (!first) os << ","; first = false; os << jq(g->getName()); }
				os << "]";
			}
			os << ",\"a\":[";
			for (unsigned i = 0; i < c->arg_size(); i++) { if (i) os << ","; operand(c->getArgOperand(i)); }
			os << "]";
			if (noReturn(c)) os << ",\"nr\":1";
			if (auto md = I.getMetadata("vp.defer")) os << ",\"df\":" << jq(cast<MDString>(md->getOperand(0))->getString());
		} else if (auto p = dyn_cast<PHINode>(&I)) {
			os << ",\"in\":[";
			for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
				if (i) os << ",";
				os << "["; operand(p->getIncomingValue(i)); os << "," << id[p->getIncomingBlock(i)] << "]";
			}
			os << "]";
		} else if (auto b = dyn_cast<BranchInst>(&I)) {
			if (b->isConditional()) { os << ",\"c\":"; operand(b->getCondition()); }
			os << ",\"s\":[";
			for (unsigned i = 0; i < b->getNumSuccessors(); i++) { if (i) os << ","; os << id[b->getSuccessor(i)]; }
			os << "]";
		} else if (auto s = dyn_cast<SwitchInst>(&I)) {
			os << ",\"c\":"; operand(s->getCondition());
			os << ",\"d\":" << id[s->getDefaultDest()] << ",\"cs\":[";
			bool f = true;
			for (auto& c : s->cases()) { if (!f) os << ","; f = false; os << "[" << c.getCaseValue()->getSExtValue() << "," << id[c.getCaseSuccessor()] << "]"; }
			os << "]";
		} else {
			if (auto c = dyn_cast<CmpInst>(&I)) os << ",\"p\":" << jq(CmpInst::getPredicateName(c->getPredicate()));
			if (auto a = dyn_cast<AllocaInst>(&I)) os << ",\"at\":" << jq(allocaType(a).empty() ? ty(a->getAllocatedType()) : "S:" + allocaType(a));
			if (auto r = dyn_cast<AtomicRMWInst>(&I)) os << ",\"rmw\":" << jq(AtomicRMWInst::getOperationName(r->getOperation())) << ",\"ord\":" << jq(toIRString(r->getOrdering()));
			if (auto l = dyn_cast<LoadInst>(&I)) if (l->isAtomic()) os << ",\"ord\":" << jq(toIRString(l->getOrdering()));
			if (auto s = dyn_cast<StoreInst>(&I)) os << ",\"vt\":" << jq(ty(s->getValueOperand()->getType()));
			if (auto s = dyn_cast<StoreInst>(&I)) if (s->isAtomic()) os << ",\"ord\":" << jq(toIRString(s->getOrdering()));
			if (auto x = dyn_cast<AtomicCmpXchgInst>(&I)) os << ",\"ord\":" << jq(toIRString(x->getSuccessOrdering()));
			if (isa<SExtInst>(I) || isa<ZExtInst>(I) || isa<TruncInst>(I)) os << ",\"ft\":" << jq(ty(I.getOperand(0)->getType()));
			os << ",\"a\":[";
			for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) os << ","; operand(I.getOperand(i)); }
			os << "]";
		}
		os << ",\"l\":";
		loc(I);
		os << "}";
	}
};

static void dumpGlobals(Module& m)
{
	static set<string> seen;
	raw_string_ostream os(GlobalsJson);
	Dump D(os);
	for (auto& g : m.globals()) {
		if (!g.hasInitializer()) continue;
		if (g.getName().starts_with(".str") || g.getName().starts_with("__func__") || g.getName().starts_with("__PRETTY")) continue;
		string n = g.getName().str();
		if (g.hasPrivateLinkage()) n += "@" + baseName(m.getSourceFileName());
		if (!seen.insert(n).second) continue;
		if (seen.size() > 1) os << ",\n";
		os << jq(n) << ":{\"const\":" << (g.isConstant() ? "true" : "false") << ",\"ty\":" << jq(Dump::ty(g.getValueType())) << ",\"init\":";
		if (isa<ConstantAggregateZero>(g.getInitializer())) os << "[\"z\"]"; else D.init(g.getInitializer());
		os << "}";
	}
	os.flush();
}

// ---------------------------------------------------------------- main

int main(int argc, char** argv)
{
	// irx OUT CONFIG BC...
	if (argc < 4) { std::cerr << "usage: irx OUT CONFIG BC...\n"; return 2; }
	{
		const char* av[] = {"irx", "-jump-threading-threshold=400", "-jump-threading-implication-search-threshold=10"};
		cl::ParseCommandLineOptions(3, av);
	}
	bool plain = false;
	{
		std::ifstream in(argv[2]);
		string k, v;
		string line;
		while (std::getline(in, line)) {
			std::istringstream ls(line);
			if (!(ls >> k)) continue;
			ls >> v;
			if (k == "keep") Keep.insert(v);
			else if (k == "entry") Entries.push_back(v);
			else if (k == "root") Root = v;
			else if (k == "nothrow") NoThrow.insert(v);
			else if (k == "plain") plain = true;
		}
	}
	LLVMContext C;
	vector<std::unique_ptr<Module>> mods;
	for (int i = 3; i < argc; i++) {
		SMDiagnostic err;
		auto m = parseIRFile(argv[i], err, C);
		if (!m) { err.print("irx", errs()); return 2; }
		mods.push_back(std::move(m));
	}
	map<string, set<string>> fstat, gstat;
	for (auto& m : mods) prepareModule(*m, fstat, gstat, false);
	for (auto& m : mods) prepareModule(*m, fstat, gstat, true);
	M = std::make_unique<Module>("program", C);
	M->setDataLayout(mods[0]->getDataLayout());
	M->setTargetTriple(mods[0]->getTargetTriple());
	Linker L(*M);
	for (auto& m : mods) collectTypes(*m);
	for (auto& m : mods) {
		DLp = &m->getDataLayout();
		for (auto& g : m->globals())
			if (g.hasInitializer()) collectConst(g.getInitializer(), "G:" + g.getName().str());
		dumpGlobals(*m);
		vector<Function*> fs;
		for (auto& F : *m) if (!F.isDeclaration()) fs.push_back(&F);
		for (auto F : fs) fieldCalls(*m, *F);
	}
	for (auto& m : mods)
		if (L.linkInModule(std::move(m))) { std::cerr << "link failed\n"; return 2; }
	DLp = &M->getDataLayout();

	vpUnwind = M->getOrInsertFunction("vp.unwind", Type::getVoidTy(C));
	cast<Function>(vpUnwind.getCallee())->setDoesNotReturn();
	vpThrows = M->getOrInsertFunction("vp.throws", Type::getInt1Ty(C));

	buildPts();
	computeMayThrow();
	dropNoReturn();

	PassBuilder PB;
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

	std::error_code ec;
	raw_fd_ostream os(argv[1], ec);
	if (ec) { std::cerr << ec.message() << "\n"; return 2; }
	os << "{\"maythrow\":[";
	bool f = true;
	for (auto& F : *M) if (MayThrow.count(&F)) { if (!f) os << ","; f = false; os << jq(F.getName()); }
	os << "],\n\"fieldpts\":{";
	f = true;
	for (auto& p : Pts) {
		if (p.first.compare(0, 2, "F:") != 0) continue;
		if (!f) os << ","; f = false;
		os << jq(p.first.substr(2)) << ":[";
		bool g = true;
		set<string> names;
		for (auto x : p.second) names.insert(x->getName().str());
		for (auto& x : names) { if (!g) os << ","; g = false; os << jq(x); }
		os << "]\n";
	}
	os << "},\n\"structs\":{";
	f = true;
	for (auto& p : DIStruct) {
		if (fileOf(p.second->getFile()).compare(0, 1, "/") == 0) continue;
		if (!f) os << ",\n"; f = false;
		os << jq(p.first) << ":{\"file\":" << jq(fileOf(p.second->getFile())) << ",\"size\":" << p.second->getSizeInBits() / 8 << ",\"f\":[";
		bool g = true;
		for (auto e : p.second->getElements()) {
			auto m = dyn_cast<DIDerivedType>(e);
			if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
			if (!g) os << ","; g = false;
			os << "[" << jq(m->getName()) << "," << jq(ditypeName(m->getBaseType())) << "," << m->getOffsetInBits() / 8 << "," << m->getSizeInBits() / 8 << "]";
		}
		os << "],\"b\":{";
		g = true;
		for (auto e : p.second->getElements()) {
			auto m = dyn_cast<DIDerivedType>(e);
			if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
			if (!g) os << ","; g = false;
			os << jq(m->getName()) << ":[" << m->getOffsetInBits() << "," << m->getSizeInBits() << "]";
		}
		os << "}}";
	}
	os << "},\n\"enums\":[";
	f = true;
	{
		set<const DICompositeType*> seen;
		auto en = [&](const DICompositeType* e) {
			if (!e || e->getTag() != dwarf::DW_TAG_enumeration_type || !seen.insert(e).second) return;
			auto file = fileOf(e->getFile());
			if (file.compare(0, 1, "/") == 0) return;
			if (!f) os << ",\n"; f = false;
			os << "{\"name\":" << jq(e->getName()) << ",\"file\":" << jq(file) << ",\"line\":" << e->getLine() << ",\"v\":{";
			bool g = true;
			for (auto x : e->getElements()) {
				auto v = dyn_cast<DIEnumerator>(x);
				if (!v) continue;
				if (!g) os << ","; g = false;
				os << jq(v->getName()) << ":" << v->getValue().getSExtValue();
			}
			os << "}}";
		};
		DebugInfoFinder DF; DF.processModule(*M);
		for (auto t : DF.types()) en(dyn_cast<DICompositeType>(t));
		for (auto cu : DF.compile_units()) for (auto e : cu->getEnumTypes()) en(e);
	}
	os << "],\n\"globals\":{";
	os << GlobalsJson;
	os << "},\n\"fns\":[";

	// original list of functions
	vector<Function*> orig;
	for (auto& F : *M) if (!F.isDeclaration()) orig.push_back(&F);
	map<string, Function*> byName;
	for (auto F : orig) byName[F->getName().str()] = F;

	f = true;
	auto emit = [&](Function* F, bool all) -> bool {
		ValueToValueMapTy VM;
		auto V = CloneFunction(F, VM);
		V->setLinkage(GlobalValue::InternalLinkage);
		V->removeFnAttr(Attribute::OptimizeNone);
		V->removeFnAttr(Attribute::NoInline);
		vector<string> notes, anomalies;
		set<string> keep = Keep;
		inlineAll(*V, keep, all, notes);
		if (all) {
			// constant folding of constant function pointers may expose further direct calls
			addExceptions(*V, anomalies);
			inlineAll(*V, keep, all, notes);
		} else
			addExceptions(*V, anomalies);
		optimize(*V, FAM);
		if (verifyFunction(*V, &errs())) { std::cerr << "verify failed: " << F->getName().str() << "\n"; return false; }
		if (!f) os << ",\n"; f = false;
		os << "{\"an\":[";
		bool g = true;
		for (auto& a : anomalies) { if (!g) os << ","; g = false; os << jq(a); }
		os << "],\"notes\":[";
		g = true;
		for (auto& a : notes) { if (!g) os << ","; g = false; os << jq(a); }
		os << "],\"view\":" << (all ? "true" : "false") << ",\"fn\":";
		Dump D(os);
		D.function(*V, F->getName().str());
		os << "}";
		FAM.clear(*V, V->getName());
		V->eraseFromParent();
		return true;
	};
	for (auto F : orig) {
		F->removeFnAttr(Attribute::OptimizeNone);
		F->removeFnAttr(Attribute::NoInline);
	}
	int rc = 0;
	if (plain)
		for (auto F : orig) if (!emit(F, false)) rc = 2;
	for (auto& e : Entries) {
		auto it = byName.find(e);
		if (it == byName.end()) continue;
		if (!emit(it->second, true)) rc = 2;
	}
	os << "]}\n";
	os.flush();
	os.close();
	_exit(rc);
}
