// Instantiates the templates of the public headers, so that their bodies are
// type-checked and analysed for concrete arguments. Never executed.
#include "Exception.hxx"
#include "NoCopy.hxx"
#include "UtilsBase.hxx"
#include "Utils.hxx"
#include "Format.hxx"
#include "Barrier.hxx"
#include "MailBox.hxx"
#include "Options.hxx"
#include "PropertyTree.hxx"
#include "PropertyTreeYAML.hxx"

namespace VDrv {
  struct Msg { int v; };
  struct Ext : public SoDa::Format_ext<Ext> {
    Ext(const std::string & s) : SoDa::Format_ext<Ext>(s, this) { }
  };
}
template class SoDa::MailBox<VDrv::Msg>;
template class SoDa::Format_ext<VDrv::Ext>;
namespace VDrv {
  std::shared_ptr<SoDa::MailBox<Msg>> drvConvert(std::shared_ptr<SoDa::MailBoxBase> p) {
    return SoDa::MailBoxBase::convert<SoDa::MailBox<Msg>>(p);
  }
  std::shared_ptr<SoDa::MailBox<Msg>> drvMake(const std::string & n) {
    return SoDa::makeMailBox<Msg>(n);
  }
  template <typename T> void drvOpt(SoDa::Options & o, T * p, std::vector<T> * v) {
    std::function<bool(T)> ok = [](T){ return true; };
    o.add<T>(p, "a", 'a', T(), std::string("doc"), ok, std::string("msg"));
    o.add<T>(p, "b", 'b', std::string("doc"), ok, std::string("msg"));
    o.addV<T>(v, "c", 'c');
    SoDa::Options::allGood<T>(T());
  }
  void drvOpts(SoDa::Options & o) {
    drvOpt<int>(o, nullptr, nullptr);
    drvOpt<unsigned int>(o, nullptr, nullptr);
    drvOpt<double>(o, nullptr, nullptr);
    drvOpt<std::string>(o, nullptr, nullptr);
    drvOpt<bool>(o, nullptr, nullptr);
    o.addP(nullptr, "d", 'd');
    o.numPosArgs();
  }
  template <typename T> bool drvGet(SoDa::PropertyTree & t, SoDa::PropertyTree::PropNode & n, T & v) {
    return t.get<T>(v, "a") && t.get<T>(v, "a", true) && n.get<T>(v) && n.get<T>(v, true);
  }
  void drvTree(SoDa::PropertyTree & t, SoDa::PropertyTree::PropNode & n) {
    int i; unsigned u; double d; std::string s; 
    drvGet(t, n, i); drvGet(t, n, u); drvGet(t, n, d); drvGet(t, n, s);
  }
}
