// In-memory stand-in for HighFive (the library is absent here): a tree of groups, datasets and attributes held in memory,
// with HighFive's interface as far as brille uses it. Values are stored element-wise with their dimensions.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <array>
#include <tuple>
#include <stdexcept>
#include <initializer_list>
#include <type_traits>
namespace HighFive {
enum class ObjectType { File, Group, UserDataType, DataSpace, Dataset, Attribute, Other };
struct Exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct GroupException : Exception { using Exception::Exception; }; struct DataSetException : Exception { using Exception::Exception; }; struct AttributeException : Exception { using Exception::Exception; };
namespace model {
struct Data { std::vector<size_t> shape; std::vector<double> f; std::vector<long long> i; std::shared_ptr<void> o; int kind=0; /*1 int 2 float 3 opaque*/ size_t osz=0; };
struct Node { bool group=true; std::map<std::string,std::shared_ptr<Node>> kids; std::map<std::string,Data> attrs; Data data; };
using NodeP=std::shared_ptr<Node>;
inline std::map<std::string,NodeP>& files(){ static std::map<std::string,NodeP> f; return f; }
template<class T,class=void> struct isenum : std::is_enum<T> {};
template<class T> constexpr bool scalar_v=std::is_arithmetic_v<T>||std::is_enum_v<T>;
template<class T> struct is_vec : std::false_type {}; template<class T,class A> struct is_vec<std::vector<T,A>> : std::true_type {};
template<class T> struct is_arr : std::false_type {}; template<class T,size_t N> struct is_arr<std::array<T,N>> : std::true_type {};
template<class T> struct leaf { using type=T; }; template<class T,class A> struct leaf<std::vector<T,A>> : leaf<T> {}; template<class T,size_t N> struct leaf<std::array<T,N>> : leaf<T> {};
template<class T> void dims(const T& x, std::vector<size_t>& s){ if constexpr(is_vec<T>::value||is_arr<T>::value){ s.push_back(x.size()); if constexpr(!std::is_same_v<T,std::vector<bool>>){ if(x.size()) dims(x[0],s); else { if constexpr(is_vec<typename T::value_type>::value||is_arr<typename T::value_type>::value) s.push_back(0);} } } }
template<class T> void put(const T& x, Data& d, const std::vector<size_t>& s, size_t lv, std::vector<typename leaf<T>::type>* op){
  if constexpr(is_vec<T>::value||is_arr<T>::value){ if(lv<s.size()&&x.size()!=s[lv]) throw DataSetException("ragged data"); for(size_t k=0;k<x.size();++k){ if constexpr(std::is_same_v<T,std::vector<bool>>) { bool b=x[k]; put(b,d,s,lv+1,nullptr);} else put(x[k],d,s,lv+1,op);} }
  else if constexpr(std::is_enum_v<T>||std::is_integral_v<T>){ d.kind=1; d.i.push_back((long long)x); }
  else if constexpr(std::is_floating_point_v<T>){ d.kind=2; d.f.push_back((double)x); }
  else { d.kind=3; op->push_back(x); } }
template<class T> Data pack(const T& x){ Data d; dims(x,d.shape); using L=typename leaf<T>::type; if constexpr(scalar_v<L>){ d.kind= std::is_floating_point_v<L>?2:1; put(x,d,d.shape,0,(std::vector<L>*)nullptr);} else { auto v=std::make_shared<std::vector<L>>(); d.kind=3; d.osz=sizeof(L); put(x,d,d.shape,0,v.get()); d.o=v; } return d; }
template<class T> void take(T& x, const Data& d, const std::vector<size_t>& s, size_t lv, size_t& p){
  if constexpr(is_vec<T>::value){ size_t n= lv<s.size()? s[lv]:0; x.resize(n); for(size_t k=0;k<n;++k){ if constexpr(std::is_same_v<T,std::vector<bool>>){ bool b; take(b,d,s,lv+1,p); x[k]=b; } else take(x[k],d,s,lv+1,p);} }
  else if constexpr(is_arr<T>::value){ if(lv>=s.size()||s[lv]!=x.size()) throw DataSetException("dimension mismatch"); for(size_t k=0;k<x.size();++k) take(x[k],d,s,lv+1,p); }
  else if constexpr(scalar_v<T>){ if(d.kind==1) x=(T)d.i[p++]; else if(d.kind==2){ if constexpr(std::is_enum_v<T>) throw DataSetException("type mismatch"); else x=(T)d.f[p++]; } else throw DataSetException("type mismatch"); }
  else { if(d.kind!=3||d.osz!=sizeof(T)) throw DataSetException("type mismatch"); x=(*std::static_pointer_cast<std::vector<T>>(d.o))[p++]; } }
template<class T> constexpr size_t depth(){ if constexpr(is_vec<T>::value||is_arr<T>::value) return 1+depth<typename T::value_type>(); else return 0; }
template<class T> void unpack(T& x, const Data& d){ size_t p=0; if(depth<T>()!=d.shape.size()) throw DataSetException("rank mismatch"); take(x,d,d.shape,0,p); }
inline std::vector<std::string> split(const std::string& s){ std::vector<std::string> r; std::string c; for(char ch: s){ if(ch=='/'){ if(!c.empty()) r.push_back(c); c.clear(); } else c+=ch; } if(!c.empty()) r.push_back(c); return r; }
}
class DataType {}; template<class T> class AtomicType : public DataType {};
class CompoundType : public DataType { public: struct member_def { std::string n; DataType t; size_t off=0; member_def(std::string a,DataType b,size_t o=0):n(std::move(a)),t(b),off(o){} }; CompoundType()=default; CompoundType(std::initializer_list<member_def>, size_t=0){} CompoundType(const std::vector<member_def>&, size_t=0){} };
template<class E> class EnumType : public DataType { public: struct member_def { std::string n; E v; member_def(std::string a,E b):n(std::move(a)),v(b){} }; EnumType()=default; EnumType(std::initializer_list<member_def>){} EnumType(const std::vector<member_def>&){} };
template<class T> DataType create_datatype();
class DataSpace { std::vector<size_t> d_; public: DataSpace()=default; explicit DataSpace(std::vector<size_t> d):d_(std::move(d)){} template<class T> static DataSpace From(const T& x){ DataSpace s; model::dims(x,s.d_); return s; } std::vector<size_t> getDimensions() const { return d_; } };
class Object { public: model::NodeP n_; Object()=default; explicit Object(model::NodeP n):n_(std::move(n)){} bool isValid() const { return (bool)n_; } };
class Attribute { public: model::NodeP n_; std::string k_; template<class T> void read(T& x) const { model::unpack(x,n_->attrs.at(k_)); } template<class T> T read() const { T x{}; read(x); return x; } template<class T> void write(const T& x){ n_->attrs[k_]=model::pack(x); } };
template<class D> class Annotate { model::NodeP n() const { return static_cast<const D*>(this)->n_; } public:
  template<class T> Attribute createAttribute(const std::string& k,const T& x){ if(n()->attrs.count(k)) throw AttributeException("attribute exists"); n()->attrs[k]=model::pack(x); return Attribute{n(),k}; }
  Attribute getAttribute(const std::string& k) const { if(!n()->attrs.count(k)) throw AttributeException("no such attribute"); return Attribute{n(),k}; }
  bool hasAttribute(const std::string& k) const { return n()->attrs.count(k)!=0; } };
class DataSet : public Object, public Annotate<DataSet> { public: using Object::Object; template<class T> void read(T& x) const { if constexpr(std::is_pointer_v<T>){ size_t n=getElementCount(); if(n_->data.kind==1) for(size_t k=0;k<n;++k) x[k]=(std::remove_pointer_t<T>)n_->data.i[k]; else if(n_->data.kind==2) for(size_t k=0;k<n;++k) x[k]=(std::remove_pointer_t<T>)n_->data.f[k]; else { using V=std::remove_pointer_t<T>; if constexpr(!std::is_arithmetic_v<V>){ if(n_->data.kind==3&&n_->data.osz==sizeof(V)){ auto& v=*std::static_pointer_cast<std::vector<V>>(n_->data.o); for(size_t k=0;k<n;++k) x[k]=v[k]; return; } } throw DataSetException("type mismatch"); } } else model::unpack(x,n_->data); } template<class T> T read() const { T x{}; read(x); return x; } template<class T> void write(const T& x){ n_->data=model::pack(x); } std::vector<size_t> getDimensions() const { return n_->data.shape; } size_t getElementCount() const { size_t r=1; for(auto s: n_->data.shape) r*=s; return r; } DataSpace getSpace() const { return DataSpace(n_->data.shape); } };
class Group;
template<class D> class NodeTraits { model::NodeP n() const { return static_cast<const D*>(this)->n_; }
  model::NodeP walk(const std::string& p, bool create, bool last, std::string* leafn) const { auto v=model::split(p); model::NodeP c=n(); size_t m=v.size()-(last?0:1); if(v.empty()) throw GroupException("empty name"); for(size_t k=0;k<m;++k){ auto it=c->kids.find(v[k]); if(it==c->kids.end()){ if(!create) return nullptr; auto x=std::make_shared<model::Node>(); c->kids[v[k]]=x; c=x; } else c=it->second; } if(leafn) *leafn=v.back(); return c; }
public:
  bool exist(const std::string& p) const { return (bool)walk(p,false,true,nullptr); }
  void unlink(const std::string& p){ std::string l; auto c=walk(p,false,false,&l); if(!c||!c->kids.erase(l)) throw GroupException("unlink of a missing object"); }
  Group createGroup(const std::string& p, bool parents=true); Group getGroup(const std::string& p) const;
  template<class T> DataSet createDataSet(const std::string& p,const T& x){ std::string l; auto c=walk(p,true,false,&l); if(c->kids.count(l)) throw DataSetException("object exists"); auto d=std::make_shared<model::Node>(); d->group=false; d->data=model::pack(x); c->kids[l]=d; return DataSet(d); }
  template<class T> DataSet createDataSet(const std::string& p,const DataSpace& s){ std::string l; auto c=walk(p,true,false,&l); if(c->kids.count(l)) throw DataSetException("object exists"); auto d=std::make_shared<model::Node>(); d->group=false; d->data.shape=s.getDimensions(); c->kids[l]=d; return DataSet(d); }
  DataSet getDataSet(const std::string& p) const { auto c=walk(p,false,true,nullptr); if(!c||c->group) throw DataSetException("no such dataset"); return DataSet(c); }
  ObjectType getObjectType(const std::string& p) const { auto c=walk(p,false,true,nullptr); if(!c) throw GroupException("no such object"); return c->group?ObjectType::Group:ObjectType::Dataset; }
  size_t getNumberObjects() const { return n()->kids.size(); } std::vector<std::string> listObjectNames() const { std::vector<std::string> r; for(auto& k: n()->kids) r.push_back(k.first); return r; } };
class Group : public Object, public NodeTraits<Group>, public Annotate<Group> { public: using Object::Object; };
template<class D> Group NodeTraits<D>::createGroup(const std::string& p,bool){ std::string l; auto c=walk(p,true,false,&l); if(c->kids.count(l)) throw GroupException("group exists"); auto g=std::make_shared<model::Node>(); c->kids[l]=g; return Group(g); }
template<class D> Group NodeTraits<D>::getGroup(const std::string& p) const { auto c=walk(p,false,true,nullptr); if(!c||!c->group) throw GroupException("no such group"); return Group(c); }
class File : public Object, public NodeTraits<File>, public Annotate<File> { public: enum : unsigned { ReadOnly=0, ReadWrite=1, Truncate=2, Excl=4, Debug=8, Create=16, Overwrite=Truncate, OpenOrCreate=ReadWrite|Create }; explicit File(const std::string& name, unsigned flags=ReadOnly){ auto& f=model::files(); auto it=f.find(name); if(it==f.end()){ if(!(flags&(Create|Truncate|Excl))) throw Exception("no such file"); n_=std::make_shared<model::Node>(); f[name]=n_; } else { if(flags&Excl) throw Exception("file exists"); if(flags&Truncate){ it->second=std::make_shared<model::Node>(); } n_=it->second; } } void flush(){} };
}
#define HIGHFIVE_REGISTER_TYPE(type, function) template<> inline ::HighFive::DataType HighFive::create_datatype<type>(){ return function(); }
