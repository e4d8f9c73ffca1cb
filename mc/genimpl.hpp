#pragma once
#include "genapi.hpp"
#include <memory>
#include <stdexcept>
template <class R> struct GenImpl : GenRobot {
  typedef std::map<std::string, std::function<Eigen::MatrixXd(R&)>> Fns;
  typedef void (*Fill)(Fns&);
  R r; std::shared_ptr<Fns> f;
  GenImpl(Fill fill) : f(std::make_shared<Fns>()) { fill(*f); }
  GenImpl(const GenImpl& o) : r(o.r), f(o.f) {}
  GenImpl(GenImpl&& o) : r(std::move(o.r)), f(o.f) {}
  GenRobot* clone() const override { return new GenImpl(*this); }
  GenRobot* moved() override { return new GenImpl(std::move(*this)); }
  void set(const std::string& w, const Eigen::VectorXd& v, bool flag) override {
    if (w == "q") r.set_q(v); else if (w == "dq") r.set_dq(v); else if (w == "ddq") r.set_ddq(v); else if (w == "d3q") r.set_d3q(v); else if (w == "d4q") r.set_d4q(v);
    else if (w == "dqr") r.set_dqr(v); else if (w == "ddqr") r.set_ddqr(v); else if (w == "x") r.set_x(v); else if (w == "dx") r.set_dx(v); else if (w == "ddx") r.set_ddx(v); else if (w == "ddxr") r.set_ddxr(v); else if (w == "w") r.set_w(v);
    else if (w == "par_REG") r.set_par_REG(v, flag); else if (w == "par_DYN") r.set_par_DYN(v, flag); else if (w == "par_K") r.set_par_K(v); else if (w == "par_D") r.set_par_D(v); else if (w == "par_Dm") r.set_par_Dm(v); else if (w == "par_Mm") r.set_par_Mm(v); else if (w == "par_Dl") r.set_par_Dl(v);
    else if (w == "par_DHtable") r.set_par_DHtable(v); else if (w == "par_gravity") r.set_par_gravity(v); else if (w == "par_world2L0") r.set_par_world2L0(v); else if (w == "par_Ln2EE") r.set_par_Ln2EE(v);
    else throw std::logic_error("no setter " + w);
  }
  void set_mat(const std::string& w, const Eigen::MatrixXd& v) override { if (w == "par_DHtable") r.set_par_DHtable(v); else throw std::logic_error("no matrix setter " + w); }
  void setArguments(const Eigen::VectorXd& a, const Eigen::VectorXd& b, const Eigen::VectorXd& c, const Eigen::VectorXd& d) override { r.setArguments(a, b, c, d); }
  Eigen::MatrixXd get(const std::string& fn) override { return f->at(fn)(r); }
  Eigen::MatrixXd par(const std::string& p) override {
    if (p == "par_REG") return r.get_par_REG(); if (p == "par_DYN") return r.get_par_DYN(); if (p == "par_K") return r.get_par_K(); if (p == "par_D") return r.get_par_D(); if (p == "par_Dm") return r.get_par_Dm(); if (p == "par_Mm") return r.get_par_Mm(); if (p == "par_Dl") return r.get_par_Dl();
    if (p == "par_DHtable") return r.get_par_DHtable(); if (p == "par_gravity") return r.get_par_gravity(); if (p == "par_world2L0") return r.get_par_world2L0(); if (p == "par_Ln2EE") return r.get_par_Ln2EE();
    throw std::logic_error("no getter " + p);
  }
  void load_conf(const std::string& x, bool flag) override { r.load_conf(x, flag); }
  Eigen::VectorXd load_par_REG(const std::string& x, bool flag) override { return r.load_par_REG(x, flag); }
  void save_par_REG(const std::string& x) override { r.save_par_REG(x); }
  void save_par_DYN(const std::string& x) override { r.save_par_DYN(x); }
  int save_par(const std::string& x) override { return r.save_par(x); }
  void resizeVariables() override { r.resizeVariables(); }
  std::vector<int> consts() override { std::vector<int> v = {r.n_joints, (int)r.ELASTIC, r.numElasticJoints, r.K_order, r.D_order, r.Dl_order, r.Dm_order, r.numParDYN, r.numParREG, r.get_numJoints(), r.get_numParDYN(), r.get_numParREG()}; for (int i = 0; i < r.n_joints; i++) v.push_back(r.isElasticJoint[i]); return v; }
  std::vector<std::string> names() override { std::vector<std::string> v; for (auto& x : *f) v.push_back(x.first); return v; }
};
