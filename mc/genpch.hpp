#include <eigen3/Eigen/Dense>
#include <yaml-cpp/yaml.h>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
