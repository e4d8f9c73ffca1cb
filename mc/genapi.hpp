// Uniform access to generated classes, compiled into shared objects by vbuild.py
#pragma once
#include <eigen3/Eigen/Dense>
#include <functional>
#include <map>
#include <string>
#include <vector>
struct GenRobot {
  virtual ~GenRobot() {}
  virtual GenRobot* clone() const = 0;
  virtual GenRobot* moved() = 0;               // another object this one was moved into
  virtual void set(const std::string& what, const Eigen::VectorXd& v, bool flag = true) = 0;   // set_<what>(v[, flag])
  virtual void set_mat(const std::string& what, const Eigen::MatrixXd& v) = 0;
  virtual void setArguments(const Eigen::VectorXd& a, const Eigen::VectorXd& b, const Eigen::VectorXd& c, const Eigen::VectorXd& d) = 0;
  virtual Eigen::MatrixXd get(const std::string& fn) = 0;                                       // get_<fn>()
  virtual Eigen::MatrixXd par(const std::string& p) = 0;                                        // get_par_<p>()
  virtual void load_conf(const std::string& f, bool flag = true) = 0;
  virtual Eigen::VectorXd load_par_REG(const std::string& f, bool flag = true) = 0;
  virtual void save_par_REG(const std::string& f) = 0;
  virtual void save_par_DYN(const std::string& f) = 0;
  virtual int save_par(const std::string& f) = 0;
  virtual void resizeVariables() = 0;
  virtual std::vector<int> consts() = 0;  // n_joints, ELASTIC, numElasticJoints, K, D, Dl, Dm orders, numParDYN, numParREG, get_numJoints, get_numParDYN, get_numParREG, isElasticJoint...
  virtual std::vector<std::string> names() = 0;
};
typedef GenRobot* (*GenMake)();
