From ff9aa1612796de2dc4f112447ca883245b7d9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 01/28] fix: pass only the symbolic entries of partially
 symbolic parameters to the generated functions

---
 src/thunder/src/utils.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 315ec68..f7b14ef 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -2,6 +2,7 @@
 #include <fstream>
 #include <sstream>
 #include <iostream>
+#include <set>
 #include <string>
 #include "robot.h"
 
@@ -196,6 +197,8 @@ namespace thunder_ns{
 			// - insert functions - //
 			string functions_string = "\n";
 			string functions_pybindings = "";
+			// parameters that the wrapper class stores in full size
+			const std::set<std::string> full_par = {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"};
 
 			for (int i=0; i<functions.size(); i++){
 				std::string fun_name = "get_" + functions[i].name;
@@ -221,9 +224,28 @@ namespace thunder_ns{
 				if (fun_args.size() == 0){
 					functions_string.append("\tconst double** input_ = nullptr;\n");
 				} else {
-					functions_string.append("\tconst double* input_[] = {" + fun_args[0]+".data()");
-					for (int j=1; j<fun_args.size(); j++){
-						functions_string.append(", " + fun_args[j]+".data()");
+					std::vector<std::string> input_ptrs;
+					for (int j=0; j<fun_args.size(); j++){
+						input_ptrs.push_back(fun_args[j] + ".data()");
+						// these parameters are stored with all their entries, the function takes only the symbolic ones
+						if (full_par.count(fun_args[j]) == 0) continue;
+						const std::vector<int>& symb = robot.symb[fun_args[j]];
+						std::vector<int> symb_index;
+						for (int k=0; k<symb.size(); k++){
+							if (symb[k]) symb_index.push_back(k);
+						}
+						if (symb_index.empty() || symb_index.size() == symb.size()) continue;
+						std::string packed = fun_args[j] + "_symb_";
+						functions_string.append("\tconst double " + packed + "[] = {" + fun_args[j] + "(" + to_string(symb_index[0]) + ")");
+						for (int k=1; k<symb_index.size(); k++){
+							functions_string.append(", " + fun_args[j] + "(" + to_string(symb_index[k]) + ")");
+						}
+						functions_string.append("};\n");
+						input_ptrs[j] = packed;
+					}
+					functions_string.append("\tconst double* input_[] = {" + input_ptrs[0]);
+					for (int j=1; j<input_ptrs.size(); j++){
+						functions_string.append(", " + input_ptrs[j]);
 					}
 					functions_string.append("};\n");
 				}
-- 
2.43.0


From 8b4ae3630a68bd6f9659eb21b412ef10f688c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 02/28] fix: couple each elastic joint with its own link joint
 when rigid joints are in the chain

---
 src/thunder/src/dynamics.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/dynamics.cpp b/src/thunder/src/dynamics.cpp
index d07014d..90468e8 100644
--- a/src/thunder/src/dynamics.cpp
+++ b/src/thunder/src/dynamics.cpp
@@ -311,17 +311,23 @@ namespace thunder_ns{
 			// casadi::SX D(numElasticJoints,numElasticJoints);
 			// casadi::SX Dm(numElasticJoints,numElasticJoints);
 			casadi::SX Mm(numElasticJoints,numElasticJoints);
+			// link joint coupled with each elastic joint
+			std::vector<int> elastic_index;
+			for (int i=0; i<nj; i++){
+				if (isElasticJoint[i]) elastic_index.push_back(i);
+			}
 			for (int i=0; i<numElasticJoints; i++){
+				int iq = elastic_index[i];
 				for (int ord=0; ord<K_order; ord++){
-					k(i) += pow(x(i)-q(i), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
+					k(i) += pow(x(i)-q(iq), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
 					K_vec[ord].resize(numElasticJoints,numElasticJoints);
 					K_vec[ord](i,i) = par_K(i*K_order + ord);
 				}
 				for (int ord=0; ord<D_order; ord++){
 					if (ord%2 == 0){
-						d(i) += pow(dx(i)-dq(i), ord+1) * par_D(i*D_order+ord);
+						d(i) += pow(dx(i)-dq(iq), ord+1) * par_D(i*D_order+ord);
 					} else {
-						d(i) += sqrt(pow(dx(i)-dq(i), 2)) * pow(dx(i)-dq(i), ord) * par_D(i*D_order+ord);
+						d(i) += sqrt(pow(dx(i)-dq(iq), 2)) * pow(dx(i)-dq(iq), ord) * par_D(i*D_order+ord);
 					}
 					D_vec[ord].resize(numElasticJoints,numElasticJoints);
 					D_vec[ord](i,i) = par_D(i*D_order + ord);
-- 
2.43.0


From 00854e00efe6c960196d57e24303cd01d4144cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 03/28] fix: reject inertial parameters of wrong size without
 touching the other parametrization

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 0b06891..011d85e 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -190,21 +190,21 @@ void thunder_robot::update_inertial_REG(){
 void thunder_robot::set_par_DYN(const Eigen::VectorXd& par_, bool update_REG){
 	if(par_.size() == par_DYN.size()){
 		par_DYN = par_;
+		// conversion from DYN to REG
+		if (update_REG)	update_inertial_REG();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_REG)	update_inertial_REG();
 }
 
 void thunder_robot::set_par_REG(const Eigen::VectorXd& par_, bool update_DYN){
 	if(par_.size() == par_REG.size()){
 		par_REG = par_;
+		// conversion from REG to DYN
+		if (update_DYN)	update_inertial_DYN();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_DYN)	update_inertial_DYN();
 }
 
 void thunder_robot::set_par_K(const Eigen::VectorXd& par_){
-- 
2.43.0


From 19cd2bf4bfe85eb89a428ad1cfc4109d8939ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 04/28] fix: sign in the roll-pitch-yaw rotations

---
 src/genYAML/src/urdf2dh_inertial.cpp                 | 2 +-
 src/thunder/src/FrameOffset.cpp                      | 4 ++--
 src/thunder/src/utils.cpp                            | 2 +-
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/genYAML/src/urdf2dh_inertial.cpp b/src/genYAML/src/urdf2dh_inertial.cpp
index 7cbbf2d..bc836fe 100644
--- a/src/genYAML/src/urdf2dh_inertial.cpp
+++ b/src/genYAML/src/urdf2dh_inertial.cpp
@@ -94,7 +94,7 @@ namespace thunder_ns{
         //template R yaw-pitch-roll
         rotTr(0,0)=cy*cp;
         rotTr(0,1)=cy*sp*sr-sy*cr;
-        rotTr(0,2)=cy*sp*cr-sy*sr;
+        rotTr(0,2)=cy*sp*cr+sy*sr;
         rotTr(1,0)=sy*cp;
         rotTr(1,1)=sy*sp*sr+cy*cr;
         rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/FrameOffset.cpp b/src/thunder/src/FrameOffset.cpp
index 9ade626..7860700 100644
--- a/src/thunder/src/FrameOffset.cpp
+++ b/src/thunder/src/FrameOffset.cpp
@@ -55,7 +55,7 @@ namespace thunder_ns{
 		//template rotation yaw-pitch-roll
 		R(0,0)=cy*cp;
 		R(0,1)=cy*sp*sr-sy*cr;
-		R(0,2)=cy*sp*cr-sy*sr;
+		R(0,2)=cy*sp*cr+sy*sr;
 		R(1,0)=sy*cp;
 		R(1,1)=sy*sp*sr+cy*cr;
 		R(1,2)=sy*sp*cr-cy*sr;
@@ -94,7 +94,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index f7b14ef..6f86e62 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -78,7 +78,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 011d85e..de44854 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -800,7 +800,7 @@ Eigen::Matrix3d thunder_robot::rpyRot(const std::vector<double> rpy){
 	//template R yaw-pitch-roll
 	rotTr(0,0)=cy*cp;
 	rotTr(0,1)=cy*sp*sr-sy*cr;
-	rotTr(0,2)=cy*sp*cr-sy*sr;
+	rotTr(0,2)=cy*sp*cr+sy*sr;
 	rotTr(1,0)=sy*cp;
 	rotTr(1,1)=sy*sp*sr+cy*cr;
 	rotTr(1,2)=sy*sp*cr-cy*sr;
-- 
2.43.0


From b9ea3a9fd7ae19405da1cd3f5576d90e85b0ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 05/28] fix: q0 of the example function is a number, not an
 argument

---
 src/thunder/src/userDefined.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunder/src/userDefined.cpp b/src/thunder/src/userDefined.cpp
index f8cd6f6..7bb5348 100644
--- a/src/thunder/src/userDefined.cpp
+++ b/src/thunder/src/userDefined.cpp
@@ -41,7 +41,7 @@ namespace thunder_ns{
 			casadi::SX q0_dist = casadi::SX::norm_2(q-q0);
 
 			// --- save function into robot --- //
-			std::vector<std::string> arg_list = robot.obtain_symb_parameters({"q", "q0"}, {});
+			std::vector<std::string> arg_list = robot.obtain_symb_parameters({"q"}, {});
 			if (!robot.add_function("q0_dist", q0_dist, arg_list, "distance from q0")) return 0;
 			// when you create the library, the function "get_q_dist()" into thunder_<robot> will return the distance from q0
 		}
-- 
2.43.0


From 447ed50ab37fd798ae7c5ec0b902f68676eec36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 06/28] fix: read link friction from the friction section when
 writing inertial files

---
 src/thunder/src/genYaml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunder/src/genYaml.cpp b/src/thunder/src/genYaml.cpp
index 093daa6..46a64fa 100644
--- a/src/thunder/src/genYaml.cpp
+++ b/src/thunder/src/genYaml.cpp
@@ -75,7 +75,7 @@ namespace thunder_ns{
 				if (Dl_order){
 					properties.Dl.resize(Dl_order);
 					YAML::Node friction = node.second["friction"];
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+					std::vector<double> Dl = friction["Dl"].as<std::vector<double>>();
 					properties.Dl = Dl;
 					// std::cout<<"Dl_read: " << Dl << std::endl;
 					// for (int j=0; j<Dl_order; j++){
-- 
2.43.0


From 2838d8fc2ebbef8b971be92f6804f3320444ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 07/28] fix: keep par_DYN and par_REG of the robot model
 consistent when one of them is set

---
 src/thunder/library/robot.h |  2 ++
 src/thunder/src/robot.cpp   | 27 ++++++++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/thunder/library/robot.h b/src/thunder/library/robot.h
index b966fa3..e6e3b1d 100644
--- a/src/thunder/library/robot.h
+++ b/src/thunder/library/robot.h
@@ -31,6 +31,8 @@ namespace thunder_ns{
 			// std::vector<fun_obj> functions;
 			int parse_config();
 			void initVarsFuns();
+			/* Reduce a full-size argument to its symbolic entries, once the functions take only those */
+			void pack_symb_arg(std::string par);
 			/* Create and initialize casadi function */
 			// void init_casadi_functions();
 			/* Update result of casadi functions */
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 3a902f2..0c6f8c0 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -507,18 +507,18 @@ namespace thunder_ns{
 
 	int Robot::set_par_DYN(Eigen::VectorXd value){
 		casadi::SX& par_DYN = args["par_DYN"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_DYN.size1(); // only the symbolic entries, if some are frozen
 		if (value.size() == numPar){
 			for (int i=0; i<numPar; i++){
 				par_DYN(i) = value(i);
 			}
+			// change par_REG
+			if (numPar == STD_PAR_LINK*numJoints) update_inertial_REG();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		// change par_REG
-		update_inertial_REG();
 	}
 
 	int Robot::set_par_REG(Eigen::VectorXd value){
@@ -528,12 +528,13 @@ namespace thunder_ns{
 			for (int i=0; i<numPar; i++){
 				par_REG(i) = value(i);
 			}
+			// change par_DYN
+			update_inertial_DYN();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		update_inertial_DYN();
 	}
 
 
@@ -548,7 +549,7 @@ namespace thunder_ns{
 
 	Eigen::VectorXd Robot::get_par_DYN(){
 		const casadi::SX& par_DYN_casadi = args["par_DYN"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_DYN_casadi.size1();
 		Eigen::VectorXd param_DYN(numPar);
 		std::vector<casadi::SXElem> res_elements = par_DYN_casadi.get_elements();
 		std::transform(res_elements.begin(), res_elements.end(), param_DYN.data(), mapFunction);
@@ -935,7 +936,8 @@ namespace thunder_ns{
 			// }
 			param_DYN.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, CoM, I-I_tmp_v;
 		}
-		set_par_DYN(param_DYN);
+		set_arg("par_DYN", param_DYN);
+		pack_symb_arg("par_DYN");
 		return 1;
 	}
 
@@ -968,7 +970,7 @@ namespace thunder_ns{
 			// }
 			param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, m_CoM, I+I_tmp_v;
 		}
-		set_par_REG(param_REG);
+		set_arg("par_REG", param_REG);
 		return 1;
 	}
 
@@ -1098,6 +1100,17 @@ namespace thunder_ns{
 		return arg_list;
 	}
 
+	void Robot::pack_symb_arg(std::string par){
+		// - keep only the symbolic entries, if the functions already take only those - //
+		const std::vector<int>& symb_flag = symb[par];
+		if (model[par].size1() == (int)symb_flag.size()) return;
+		std::vector<casadi::SX> par_symb;
+		for (int i=0; i<(int)symb_flag.size(); i++){
+			if (symb_flag[i]) par_symb.push_back(args[par](i));
+		}
+		args[par] = par_symb.empty() ? casadi::SX(0,1) : casadi::SX::vertcat(par_symb);
+	}
+
 	int Robot::update_symb_parameters(){
 		// - resize parameter variables to right dimension - //
 		for (auto par_symb : symb){
-- 
2.43.0


From 702292fbafab4e17a739e155b1d6c90117586dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 08/28] fix: Robot::load_par_REG reads the layout that
 save_par_REG writes

---
 src/thunder/src/robot.cpp | 41 +++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 0c6f8c0..684de35 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -725,39 +725,42 @@ namespace thunder_ns{
 
 	casadi::SX Robot::load_par_REG(std::string file, bool update_DYN){
 		// Eigen::VectorXd param_REG;
-		casadi::SX param_REG(STD_PAR_LINK*numJoints,1);
-		casadi::SX param_Dl(Dl_order*numJoints,1);
+		casadi::SX param_REG = args["par_REG"];
+		casadi::SX param_Dl = casadi::SX::zeros(Dl_order*numJoints,1);
+		bool has_Dl = false; // the file may not contain the friction
 		// casadi::SX::zeros(numJoints,1)
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
 			YAML::Node config_file = YAML::LoadFile(file);
 			// load inertial
-			YAML::Node inertial = config_file["inertial"];
+			YAML::Node dynamics = config_file["dynamics"];
 			int i = 0;
-			for (const auto& node : inertial) {
+			for (const auto& node : dynamics) {
+				YAML::Node inertial = node.second["inertial"];
 				
 				if (i==numJoints) break;
 				std::string linkName = node.first.as<std::string>();
 				
 				// standard parameters
-				param_REG(STD_PAR_LINK*i) = node.second["mass"].as<double>();
-				param_REG(STD_PAR_LINK*i+1) = node.second["m_CoM_x"].as<double>();
-				param_REG(STD_PAR_LINK*i+2) = node.second["m_CoM_y"].as<double>();
-				param_REG(STD_PAR_LINK*i+3) = node.second["m_CoM_z"].as<double>();
-				param_REG(STD_PAR_LINK*i+4) = node.second["Ixx"].as<double>();
-				param_REG(STD_PAR_LINK*i+5) = node.second["Ixy"].as<double>();
-				param_REG(STD_PAR_LINK*i+6) = node.second["Ixz"].as<double>();
-				param_REG(STD_PAR_LINK*i+7) = node.second["Iyy"].as<double>();
-				param_REG(STD_PAR_LINK*i+8) = node.second["Iyz"].as<double>();
-				param_REG(STD_PAR_LINK*i+9) = node.second["Izz"].as<double>();
+				param_REG(STD_PAR_LINK*i) = inertial["mass"].as<double>();
+				param_REG(STD_PAR_LINK*i+1) = inertial["m_CoM_x"].as<double>();
+				param_REG(STD_PAR_LINK*i+2) = inertial["m_CoM_y"].as<double>();
+				param_REG(STD_PAR_LINK*i+3) = inertial["m_CoM_z"].as<double>();
+				param_REG(STD_PAR_LINK*i+4) = inertial["Ixx"].as<double>();
+				param_REG(STD_PAR_LINK*i+5) = inertial["Ixy"].as<double>();
+				param_REG(STD_PAR_LINK*i+6) = inertial["Ixz"].as<double>();
+				param_REG(STD_PAR_LINK*i+7) = inertial["Iyy"].as<double>();
+				param_REG(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();
+				param_REG(STD_PAR_LINK*i+9) = inertial["Izz"].as<double>();
 
 				// link friction
-				if (node.second["Dl"]){
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+				if (node.second["friction"]){
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
 						param_Dl(Dl_order*i + j) = Dl[j];
 					}
+					has_Dl = true;
 				}
 
 				i++;
@@ -766,9 +769,13 @@ namespace thunder_ns{
 			// std::cout<<"\nparam REG \n"<<param_REG<<std::endl;
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+			return args["par_REG"];
 		}
 		args["par_REG"] = param_REG;
-		if (Dl_order > 0) args["par_Dl"] = param_Dl;
+		if (Dl_order > 0 && has_Dl){
+			args["par_Dl"] = param_Dl;
+			pack_symb_arg("par_Dl");
+		}
 		if (update_DYN) update_inertial_DYN();
 		return param_REG;
 	}
-- 
2.43.0


From 5355812a1c172afcdf3b05427aa2e3d4df704793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 09/28] fix: Robot::load_conf_par keeps the argument layout,
 and the values when the file cannot be read

---
 src/thunder/src/robot.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 684de35..cc81cfc 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -637,12 +637,12 @@ namespace thunder_ns{
 
 	int Robot::load_conf_par(std::string file, bool update_REG){
 		// Eigen::VectorXd param_DYN;
-		casadi::SX param_DYN(STD_PAR_LINK*numJoints,1);
-		casadi::SX param_Dl(Dl_order*numJoints,1);
-		casadi::SX param_K(numElasticJoints*K_order,1);
-		casadi::SX param_D(numElasticJoints*D_order,1);
-		casadi::SX param_Dm(numElasticJoints*Dm_order,1);
-		casadi::SX param_Mm(numElasticJoints,1);
+		casadi::SX param_DYN = casadi::SX::zeros(STD_PAR_LINK*numJoints,1);
+		casadi::SX param_Dl = casadi::SX::zeros(Dl_order*numJoints,1);
+		casadi::SX param_K = casadi::SX::zeros(numElasticJoints*K_order,1);
+		casadi::SX param_D = casadi::SX::zeros(numElasticJoints*D_order,1);
+		casadi::SX param_Dm = casadi::SX::zeros(numElasticJoints*Dm_order,1);
+		casadi::SX param_Mm = casadi::SX::zeros(numElasticJoints,1);
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
@@ -712,6 +712,7 @@ namespace thunder_ns{
 			}
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+			return 0;
 		}
 		args["par_DYN"] = param_DYN;
 		if (Dl_order > 0) args["par_Dl"] = param_Dl;
@@ -720,6 +721,9 @@ namespace thunder_ns{
 		if (Dm_order>0) args["par_Dm"] = param_Dm;
 		if (ELASTIC) args["par_Mm"] = param_Mm;
 		if (update_REG) update_inertial_REG();
+		for (const std::string par : {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}){
+			if (args.count(par)) pack_symb_arg(par);
+		}
 		return 1;
 	}
 
-- 
2.43.0


From c3f935934accb8086d72844f64011db29371d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 10/28] fix: add_function takes all the entries of parameters
 that are already reduced to the symbolic ones

---
 src/thunder/src/robot.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index cc81cfc..2b509b8 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1005,7 +1005,7 @@ namespace thunder_ns{
 				// int sz_original = args[arg].size();
 				// std::cout << "fun: " << f_name << std::endl;
 				// std::cout << "arg: " << arg << std::endl;
-				std::vector<int>& symb_flag = symb[arg];
+				const std::vector<int> symb_flag = symb.count(arg) ? symb[arg] : std::vector<int>();
 				std::vector<casadi::SX> par_symb;
 				casadi::SX& par_model = model[arg];
 				// cout << "model[arg]: " << par_model << endl;
@@ -1014,8 +1014,10 @@ namespace thunder_ns{
 				// casadi::SX par_model_new = casadi::SX::zeros(sz_original);
 				// casadi::SX new_par(sz_original,1);
 				int sz = 0;
+				// all the entries are arguments when the parameter is already reduced, or has no selectivity
+				bool all_symb = ((int)symb_flag.size() != sz_original);
 				for (int i=0; i<sz_original; i++){
-					if (symb_flag[i]){
+					if (all_symb || symb_flag[i]){
 						par_symb.push_back(par_model(i));
 						// par_model_new(sz) = par_model(i);
 						sz++;
-- 
2.43.0


From 614dbc0a5b72dc5a3225f3dc003bb91b5aeb9078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 11/28] fix: link friction is optional when Dl_order is given

---
 src/thunder/src/robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 2b509b8..bc40580 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -137,7 +137,7 @@ namespace thunder_ns{
 				for (const auto& node : dynamics) {
 					YAML::Node friction = node.second["friction"];
 					std::vector<int> fric_symb;
-					if (friction["symb"]) {
+					if (friction && friction["symb"]) {
 						fric_symb = friction["symb"].as<std::vector<int>>();
 					} else {
 						fric_symb.assign(this->Dl_order, 0);
-- 
2.43.0


From 05ce69ada57b26d05eaf4ef4dcefa20530ee35bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 12/28] fix: check the joint list length before reading it

---
 src/thunder/src/robot.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index bc40580..336b5bd 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -56,6 +56,9 @@ namespace thunder_ns{
 			nj = config_file["num_joints"].as<int>();
 			this->numJoints = nj;
 			this->jointsType = config_file["type_joints"].as<std::vector<std::string>>();
+			if (this->jointsType.size() != this->numJoints) {
+				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
+			}
 
 			// Friction model order (defaults to 0)
 			this->Dl_order = config_file["Dl_order"] ? config_file["Dl_order"].as<int>() : 0;
@@ -202,10 +205,6 @@ namespace thunder_ns{
 
 
 			// ---- Finalize Robot State and CasADi Model ---- //
-			if (this->jointsType.size() != this->numJoints) {
-				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
-			}
-			
 			// Define symbolic variables for the model
 			this->model = {
 				{"par_DHtable", casadi::SX::sym("DHtable", this->numJoints * 4)},
-- 
2.43.0


From 53753db63339db0241b8308a6217325920b9e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 13/28] fix: set_par_DHtable accepts the table as a matrix

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index de44854..150f734 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -249,7 +249,7 @@ void thunder_robot::set_par_Dl(const Eigen::VectorXd& par_){
 
 void thunder_robot::set_par_DHtable(const Eigen::MatrixXd& par_){
 	if(par_.size() == par_DHtable.size()){
-		par_DHtable = par_;
+		par_DHtable = par_.reshaped<Eigen::RowMajor>(); // a matrix is taken row by row, as in the configuration
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-- 
2.43.0


From d2215e1e0adfa585292d2f0934e041b9c93377fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 14/28] fix: genInertial_files accepts links without friction
 section

---
 src/thunder/src/genYaml.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/thunder/src/genYaml.cpp b/src/thunder/src/genYaml.cpp
index 46a64fa..3538694 100644
--- a/src/thunder/src/genYaml.cpp
+++ b/src/thunder/src/genYaml.cpp
@@ -75,8 +75,7 @@ namespace thunder_ns{
 				if (Dl_order){
 					properties.Dl.resize(Dl_order);
 					YAML::Node friction = node.second["friction"];
-					std::vector<double> Dl = friction["Dl"].as<std::vector<double>>();
-					properties.Dl = Dl;
+					if (friction) properties.Dl = friction["Dl"].as<std::vector<double>>(); // no friction if omitted
 					// std::cout<<"Dl_read: " << Dl << std::endl;
 					// for (int j=0; j<Dl_order; j++){
 					// 	properties.Dl[j] = Dl[j];
-- 
2.43.0


From 4ec602ee832bde170f245ad8438120b768d7c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 15/28] fix: load_par_REG reads the link friction that
 save_par_REG writes

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 150f734..0ef2090 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -349,6 +349,13 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 
 				par_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass,m_cmx,m_cmy,m_cmz,xx,xy,xz,yy,yz,zz;
 				
+				// - link friction - //
+				if (node.second["friction"]){
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+					for (int j=0; j<Dl_order; j++){
+						par_Dl(Dl_order*i + j) = Dl[j];
+					}
+				}
 				i++;
 			}
 			if (update_DYN) update_inertial_DYN();
-- 
2.43.0


From aaf776a64bbac82d2a78852608a8790c421090b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 16/28] fix: loading a file into the robot model keeps the
 parameters the file does not mention

---
 src/thunder/library/robot.h |  2 ++
 src/thunder/src/robot.cpp   | 32 ++++++++++++++++++++++++--------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/thunder/library/robot.h b/src/thunder/library/robot.h
index e6e3b1d..e686373 100644
--- a/src/thunder/library/robot.h
+++ b/src/thunder/library/robot.h
@@ -33,6 +33,8 @@ namespace thunder_ns{
 			void initVarsFuns();
 			/* Reduce a full-size argument to its symbolic entries, once the functions take only those */
 			void pack_symb_arg(std::string par);
+			/* Full-size values of an argument reduced to its symbolic entries */
+			casadi::SX unpack_symb_arg(std::string par, int full_size);
 			/* Create and initialize casadi function */
 			// void init_casadi_functions();
 			/* Update result of casadi functions */
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 336b5bd..457de9f 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -636,12 +636,13 @@ namespace thunder_ns{
 
 	int Robot::load_conf_par(std::string file, bool update_REG){
 		// Eigen::VectorXd param_DYN;
-		casadi::SX param_DYN = casadi::SX::zeros(STD_PAR_LINK*numJoints,1);
-		casadi::SX param_Dl = casadi::SX::zeros(Dl_order*numJoints,1);
-		casadi::SX param_K = casadi::SX::zeros(numElasticJoints*K_order,1);
-		casadi::SX param_D = casadi::SX::zeros(numElasticJoints*D_order,1);
-		casadi::SX param_Dm = casadi::SX::zeros(numElasticJoints*Dm_order,1);
-		casadi::SX param_Mm = casadi::SX::zeros(numElasticJoints,1);
+		casadi::SX param_DYN = unpack_symb_arg("par_DYN", STD_PAR_LINK*numJoints);
+		casadi::SX param_Dl = unpack_symb_arg("par_Dl", Dl_order*numJoints);
+		casadi::SX param_K = unpack_symb_arg("par_K", numElasticJoints*K_order);
+		casadi::SX param_D = unpack_symb_arg("par_D", numElasticJoints*D_order);
+		casadi::SX param_Dm = unpack_symb_arg("par_Dm", numElasticJoints*Dm_order);
+		casadi::SX param_Mm = unpack_symb_arg("par_Mm", numElasticJoints);
+		bool has_DYN = false; // the file may not contain the inertial parameters
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
@@ -666,6 +667,7 @@ namespace thunder_ns{
 				param_DYN(STD_PAR_LINK*i+7) = inertial["Iyy"].as<double>();
 				param_DYN(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();
 				param_DYN(STD_PAR_LINK*i+9) = inertial["Izz"].as<double>();
+				has_DYN = true;
 				
 				// link friction
 				if (node.second["friction"]){
@@ -719,7 +721,7 @@ namespace thunder_ns{
 		if (D_order>0) args["par_D"] = param_D;
 		if (Dm_order>0) args["par_Dm"] = param_Dm;
 		if (ELASTIC) args["par_Mm"] = param_Mm;
-		if (update_REG) update_inertial_REG();
+		if (update_REG && has_DYN) update_inertial_REG();
 		for (const std::string par : {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}){
 			if (args.count(par)) pack_symb_arg(par);
 		}
@@ -729,7 +731,7 @@ namespace thunder_ns{
 	casadi::SX Robot::load_par_REG(std::string file, bool update_DYN){
 		// Eigen::VectorXd param_REG;
 		casadi::SX param_REG = args["par_REG"];
-		casadi::SX param_Dl = casadi::SX::zeros(Dl_order*numJoints,1);
+		casadi::SX param_Dl = unpack_symb_arg("par_Dl", Dl_order*numJoints);
 		bool has_Dl = false; // the file may not contain the friction
 		// casadi::SX::zeros(numJoints,1)
 		// ----- parsing yaml inertial ----- //
@@ -1123,6 +1125,20 @@ namespace thunder_ns{
 		args[par] = par_symb.empty() ? casadi::SX(0,1) : casadi::SX::vertcat(par_symb);
 	}
 
+	casadi::SX Robot::unpack_symb_arg(std::string par, int full_size){
+		// - current values in full size, the frozen entries are dropped when packing again - //
+		if (args.count(par) == 0) return casadi::SX::zeros(full_size,1);
+		casadi::SX par_arg = args[par];
+		if (par_arg.size1() == full_size) return par_arg;
+		casadi::SX par_full = casadi::SX::zeros(full_size,1);
+		const std::vector<int>& symb_flag = symb[par];
+		int sz = 0;
+		for (int i=0; i<(int)symb_flag.size(); i++){
+			if (symb_flag[i]) par_full(i) = par_arg(sz++);
+		}
+		return par_full;
+	}
+
 	int Robot::update_symb_parameters(){
 		// - resize parameter variables to right dimension - //
 		for (auto par_symb : symb){
-- 
2.43.0


From d541959cd44503bcb2447937ffe32efee31cd6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 17/28] fix: load_conf keeps the parameters of a section it
 cannot read

---
 .../thunder_robot_template/thunder_robot.cpp   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 0ef2090..a8b718d 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -372,7 +372,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		int index;
 		// --- Parse kinematics --- //
 		if (config["kinematics"]){
-			par_DHtable.resize(n_joints*4);
 			// Denavit-Hartenberg
 			YAML::Node kinematics = config["kinematics"];
 			std::vector<double> dh_vect = kinematics["DH"].as<std::vector<double>>();
@@ -383,6 +382,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				// no parameters here
 			}
 			int sz = dh_vect.size();
+			par_DHtable.resize(n_joints*4);
 			// par_DHtable.resize(sz);
 			// for (int i=0; i<sz; i++){
 			// 		par_DHtable(i) = dh_vect[i];
@@ -400,8 +400,9 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		}
 		// - Frame Offsets - //
 		if (config["Base_to_L0"]){
-			par_world2L0.resize(6);
 			YAML::Node frame_base = config["Base_to_L0"];
+			std::vector<double> tr = frame_base["tr"].as<std::vector<double>>();
+			std::vector<double> ypr = frame_base["ypr"].as<std::vector<double>>();
 			if (frame_base["symb"]){
 				world2L0_symb = frame_base["symb"].as<std::vector<int>>();
 			} else {
@@ -410,8 +411,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// int sz = 0;
 			// for (int v : world2L0_symb) if (v) sz++;
 			// std::cout << "sz: " << sz << std::endl;
-			std::vector<double> tr = frame_base["tr"].as<std::vector<double>>();
-			std::vector<double> ypr = frame_base["ypr"].as<std::vector<double>>();
+			par_world2L0.resize(6);
 			// Eigen::VectorXd world2L0_new(sz);
 			int sz1=0, sz2=0;
 			for (int i=0; i<3; i++){
@@ -431,8 +431,9 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		}
 
 		if (config["Ln_to_EE"]){
-			par_Ln2EE.resize(6);
 			YAML::Node frame_ee = config["Ln_to_EE"];
+			std::vector<double> tr = frame_ee["tr"].as<std::vector<double>>();
+			std::vector<double> ypr = frame_ee["ypr"].as<std::vector<double>>();
 			if (frame_ee["symb"]){
 				Ln2EE_symb = frame_ee["symb"].as<std::vector<int>>();
 			} else {
@@ -441,8 +442,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// int sz = 0;
 			// for (int v : Ln2EE_symb) if (v) sz++;
 			// std::cout << "sz: " << sz << std::endl;
-			std::vector<double> tr = frame_ee["tr"].as<std::vector<double>>();
-			std::vector<double> ypr = frame_ee["ypr"].as<std::vector<double>>();
+			par_Ln2EE.resize(6);
 			// Eigen::VectorXd Ln2EE_new(sz);
 			int sz1=0, sz2=0;
 			for (int i=0; i<3; i++){
@@ -497,8 +497,8 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		}
 		// - Gravity - //
 		if (config["gravity"]){
-			par_gravity.resize(3);
 			YAML::Node gravity_node = config["gravity"];
+			std::vector<double> grav = gravity_node["value"].as<std::vector<double>>();
 			if (gravity_node["symb"]){
 				gravity_symb = gravity_node["symb"].as<std::vector<int>>();
 			} else {
@@ -506,7 +506,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			}
 			// int sz = 0;
 			// for (int v : gravity_symb) if (v) sz++;
-			std::vector<double> grav = gravity_node["value"].as<std::vector<double>>();
+			par_gravity.resize(3);
 			// Eigen::VectorXd gravity_new(sz);
 			int sz1 = 0;
 			for (int i=0; i<3; i++){
-- 
2.43.0


From 4759f5402efafb9f8e814bee58cf1fae6e3c1a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 18/28] fix: load_conf_par keeps the regressor parameters of
 the links that are not in the file

---
 src/thunder/src/robot.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 457de9f..8ef7920 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -642,7 +642,7 @@ namespace thunder_ns{
 		casadi::SX param_D = unpack_symb_arg("par_D", numElasticJoints*D_order);
 		casadi::SX param_Dm = unpack_symb_arg("par_Dm", numElasticJoints*Dm_order);
 		casadi::SX param_Mm = unpack_symb_arg("par_Mm", numElasticJoints);
-		bool has_DYN = false; // the file may not contain the inertial parameters
+		int links_DYN = 0; // links with inertial parameters in the file
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
@@ -667,7 +667,7 @@ namespace thunder_ns{
 				param_DYN(STD_PAR_LINK*i+7) = inertial["Iyy"].as<double>();
 				param_DYN(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();
 				param_DYN(STD_PAR_LINK*i+9) = inertial["Izz"].as<double>();
-				has_DYN = true;
+				links_DYN = i+1;
 				
 				// link friction
 				if (node.second["friction"]){
@@ -721,7 +721,12 @@ namespace thunder_ns{
 		if (D_order>0) args["par_D"] = param_D;
 		if (Dm_order>0) args["par_Dm"] = param_Dm;
 		if (ELASTIC) args["par_Mm"] = param_Mm;
-		if (update_REG && has_DYN) update_inertial_REG();
+		if (update_REG && links_DYN > 0){
+			// the links that are not in the file keep their parameters
+			casadi::SX param_REG = args["par_REG"];
+			update_inertial_REG();
+			for (int k=STD_PAR_LINK*links_DYN; k<STD_PAR_LINK*numJoints; k++) args["par_REG"](k) = param_REG(k);
+		}
 		for (const std::string par : {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}){
 			if (args.count(par)) pack_symb_arg(par);
 		}
-- 
2.43.0


From 9a122db15efa5440c4154671b600a0d98172336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 19/28] fix: transformBodyInertial left the previous
 orientation in its output, so that transforming in place and again rotated
 the inertia twice

---
 src/genYAML/src/urdf2dh_inertial.cpp | 1 +
 src/thunder/src/utils.cpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/genYAML/src/urdf2dh_inertial.cpp b/src/genYAML/src/urdf2dh_inertial.cpp
index bc836fe..7b5ada4 100644
--- a/src/genYAML/src/urdf2dh_inertial.cpp
+++ b/src/genYAML/src/urdf2dh_inertial.cpp
@@ -25,6 +25,7 @@ namespace thunder_ns{
         body.mass = body_urdf.mass;
         body.xyz = {OiGi(0),OiGi(1),OiGi(2)};
         body.parI = {IOi_i(0,0),IOi_i(0,1),IOi_i(0,2),IOi_i(1,1),IOi_i(1,2),IOi_i(2,2)};
+        body.rpy = {0,0,0}; // the inertia is now expressed in the axes of the new frame
         body.name = body_urdf.name;
     }
 
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 6f86e62..5c224e7 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -32,6 +32,7 @@ namespace thunder_ns{
 		body.mass = body_urdf.mass;
 		body.xyz = {OiGi(0),OiGi(1),OiGi(2)};
 		body.parI = {IOi_i(0,0),IOi_i(0,1),IOi_i(0,2),IOi_i(1,1),IOi_i(1,2),IOi_i(2,2)};
+		body.rpy = {0,0,0}; // the inertia is now expressed in the axes of the new frame
 		body.name = body_urdf.name;
 	}
 
-- 
2.43.0


From e3c0ee3bc02ad6654c131e5fce73ba983d6ee3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 20/28] fix: generated functions of robots named <a> and
 <a>_reg had the same symbols and could not be linked together

---
 src/thunder/src/robot.cpp | 2 +-
 src/thunder/src/utils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 8ef7920..d19e427 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1041,7 +1041,7 @@ namespace thunder_ns{
 				arg_index++;
 			}
 
-			casadi::Function fun(robotName+"_"+f_name+"_fun", inputs, {densify(expr)});
+			casadi::Function fun(robotName+"_get_"+f_name+"_fun", inputs, {densify(expr)});
 			// cout<<"fun: "<<fun<<endl;
 			casadi_fun[f_name] = fun;
 		}
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 5c224e7..ee41285 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -203,7 +203,7 @@ namespace thunder_ns{
 
 			for (int i=0; i<functions.size(); i++){
 				std::string fun_name = "get_" + functions[i].name;
-				std::string fun_name_gen = robotName + "_" + functions[i].name;
+				std::string fun_name_gen = robotName + "_" + fun_name;
 				std::vector<std::string> fun_args = functions[i].args;
 				std::vector<int> out_size = functions[i].out_size;
 				// // function arguments
-- 
2.43.0


From 31caf1be015c936ddd25f269bba87a160ef57a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 21/28] fix: thunder gen aborted after half of its files when
 HOME is not set

---
 src/thunder/thunder_main.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/thunder/thunder_main.cpp b/src/thunder/thunder_main.cpp
index b8ed7a8..dacc0d4 100755
--- a/src/thunder/thunder_main.cpp
+++ b/src/thunder/thunder_main.cpp
@@ -153,8 +153,6 @@ int main(int argc, char* argv[]){
 	std::string thunder_robot_h_path;
 	std::string python_cmake_file;
 
-	// Get home/.local/share directory
-	std::string home = std::getenv("HOME");
 	// std::string template_path = home + "/.local/share/thunder_dynamics/thunder_robot_template/";
 	std::string template_path = "/usr/local/share/thunder_dynamics/thunder_robot_template/";
 
-- 
2.43.0


From b58d9b6f532003803222452c845c2e143f6a4470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 22/28] fix: descriptions of functions with line breaks, quotes
 or backslashes gave generated code that does not compile

---
 src/thunder/src/utils.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index ee41285..3cace29 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -105,6 +105,28 @@ namespace thunder_ns{
 		return I;
 	}
 
+	// text on a single line, to be used in a comment
+	static string one_line(string text){
+		for (char& c : text){
+			if (c == '\n' || c == '\r') c = ' ';
+		}
+		return text;
+	}
+
+	// text as the content of a C++ string literal
+	static string literal(const string& text){
+		string out;
+		for (char c : text){
+			if (c == '\n') out += "\\n";
+			else if (c == '\r') out += "\\r";
+			else {
+				if (c == '"' || c == '\\' || c == '?') out += '\\';
+				out += c;
+			}
+		}
+		return out;
+	}
+
 	int change_to_robot(const string from_robot, const string to_robot, Robot& robot, const string file_path_h, const string file_path_cpp, const bool gen_python){
 		
 		// - get parameters from robot - //
@@ -164,7 +186,7 @@ namespace thunder_ns{
 			// - insert functions - //
 			string functions_string = "\n";
 			for (int i=0; i<functions.size(); i++){
-				functions_string.append("\t\t// - " + functions[i].description + " - //\n");
+				functions_string.append("\t\t// - " + one_line(functions[i].description) + " - //\n");
 				functions_string.append("\t\t"+get_ret_type(functions[i])+" get_" + functions[i].name + "();\n\n");
 			}
 			replace_all(file_content_h, "/*#-FUNCTIONS_H-#*/", functions_string);
@@ -213,7 +235,7 @@ namespace thunder_ns{
 				// }
 				// other parts
 				string ret_type = get_ret_type(functions[i]);
-				functions_string.append("// - " + functions[i].description + " - //\n");
+				functions_string.append("// - " + one_line(functions[i].description) + " - //\n");
 				functions_string.append(ret_type + " thunder_" + to_robot + "::" + fun_name + "(){\n");
 				// functions_string.append("\tEigen::MatrixXd out;\n");
 				// functions_string.append("\tout.resize("+to_string(out_size[0])+","+to_string(out_size[1])+");\n");
@@ -258,7 +280,7 @@ namespace thunder_ns{
 
 				// pybindings
 				if(gen_python)
-					functions_pybindings.append("\t\t.def(\"" + fun_name + "\", &thunder_" + to_robot + "::" + fun_name + ", \""+ functions[i].description +"\")\n");
+					functions_pybindings.append("\t\t.def(\"" + fun_name + "\", &thunder_" + to_robot + "::" + fun_name + ", \""+ literal(functions[i].description) +"\")\n");
 			}
 			replace_all(file_content_cpp, "/*#-FUNCTIONS_CPP-#*/", functions_string);
 
-- 
2.43.0


From b6c380185e546b6de39298b9deea0d86cacd3b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:29 +0000
Subject: [PATCH 23/28] fix: refuse configurations whose lists are too short or
 whose numbers cannot be read

Lists shorter than the number of joints or the declared orders were read past
their end, surplus links and longer masks were written past the end of the
internal vectors, and robot_from_file ignored the failure of reading the
parameters: it returned a robot whose parameters are all zero.
---
 src/thunder/src/robot.cpp | 50 +++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index d19e427..8723b7a 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -10,6 +10,16 @@ using std::endl;
 
 namespace thunder_ns{
 
+	// list of at least 'size' entries, what comes after them is not used
+	template <typename T> static std::vector<T> read_list(const YAML::Node& node, const std::string& name, int size){
+		std::vector<T> list = node[name].as<std::vector<T>>();
+		if ((int)list.size() < size){
+			throw YAML::Exception(node.Mark(), name + " needs " + std::to_string(size) + " entries, " + std::to_string(list.size()) + " given");
+		}
+		list.resize(size);
+		return list;
+	}
+
 	// constexpr double MU = 0.02; //pseudo-inverse damping coeff
 	// constexpr unsigned int N_PAR_LINK = 10; // number of link+joint parameters
 	// constexpr unsigned int NUMBER_FUNCTIONS = 10; // number of generable functions
@@ -20,7 +30,7 @@ namespace thunder_ns{
 	}
 
 	Robot::Robot(const YAML::Node yaml){
-		load_config(yaml); 		// load config and parameters from yaml file
+		if (!load_config(yaml)) throw std::runtime_error("Invalid configuration"); // load config and parameters from yaml file
 		initVarsFuns();			// initialize variables
 	}
 
@@ -32,7 +42,7 @@ namespace thunder_ns{
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while loading YAML: " << e.what() << std::endl;
 		}
-		parse_config();
+		if (!parse_config()) throw std::runtime_error("Invalid configuration: " + config_file);
 		return config_yaml;
 	}
 	int Robot::load_config(YAML::Node yaml){
@@ -89,7 +99,7 @@ namespace thunder_ns{
 
 			// Denavit-Hartenberg
 			YAML::Node kinematics = config_file["kinematics"];
-			std::vector<double> dh_vect = kinematics["DH"].as<std::vector<double>>();
+			std::vector<double> dh_vect = read_list<double>(kinematics, "DH", 4*nj);
 			int dh_size = dh_vect.size();
 			casadi::SX DHtable_numerical(dh_size, 1);
 			for (int i = 0; i < dh_size; i++) {
@@ -99,18 +109,18 @@ namespace thunder_ns{
 			// Gravity
 			std::vector<double> gravity_vect = {0.0, 0.0, 0.0}; // default no gravity
 			if (config_file["gravity"]){
-				gravity_vect = config_file["gravity"]["value"].as<std::vector<double>>();
+				gravity_vect = read_list<double>(config_file["gravity"], "value", 3);
 			}
 
 			// Frame Offsets
 			YAML::Node frame_base = config_file["Base_to_L0"];
-			Base_to_L0.set_translation(frame_base["tr"].as<std::vector<double>>());
-			Base_to_L0.set_ypr(frame_base["ypr"].as<std::vector<double>>());
+			Base_to_L0.set_translation(read_list<double>(frame_base, "tr", 3));
+			Base_to_L0.set_ypr(read_list<double>(frame_base, "ypr", 3));
 			// Base_to_L0.set_gravity(gravity_vect);
 
 			YAML::Node frame_ee = config_file["Ln_to_EE"];
-			Ln_to_EE.set_translation(frame_ee["tr"].as<std::vector<double>>());
-			Ln_to_EE.set_ypr(frame_ee["ypr"].as<std::vector<double>>());
+			Ln_to_EE.set_translation(read_list<double>(frame_ee, "tr", 3));
+			Ln_to_EE.set_ypr(read_list<double>(frame_ee, "ypr", 3));
 
 
 			// ---- Symbolic Selectivity Vectors ---- //
@@ -121,10 +131,12 @@ namespace thunder_ns{
 			YAML::Node dynamics = config_file["dynamics"];
 			int link_index = 0;
 			for (const auto& node : dynamics) {
+				if (link_index == nj) break;
 				YAML::Node inertial = node.second["inertial"];
 				std::vector<int> link_symb;
 				if (inertial["symb"]) {
 					link_symb = inertial["symb"].as<std::vector<int>>();
+					link_symb.resize(STD_PAR_LINK);
 				} else {
 					link_symb.assign(STD_PAR_LINK, 0); // Default to non-symbolic
 				}
@@ -138,10 +150,12 @@ namespace thunder_ns{
 				par_Dl_symb.resize(this->Dl_order * nj);
 				link_index = 0;
 				for (const auto& node : dynamics) {
+					if (link_index == nj) break;
 					YAML::Node friction = node.second["friction"];
 					std::vector<int> fric_symb;
 					if (friction && friction["symb"]) {
 						fric_symb = friction["symb"].as<std::vector<int>>();
+						fric_symb.resize(this->Dl_order);
 					} else {
 						fric_symb.assign(this->Dl_order, 0);
 					}
@@ -191,16 +205,16 @@ namespace thunder_ns{
 			this->symb["par_Dm"] = par_Dm_symb;
 			this->symb["par_Mm"] = par_Mm_symb;
 
-			if (kinematics["symb"]) this->symb["par_DHtable"] = kinematics["symb"].as<std::vector<int>>();
+			if (kinematics["symb"]) this->symb["par_DHtable"] = read_list<int>(kinematics, "symb", 4*nj);
 			else this->symb["par_DHtable"].assign(dh_size, 0);
 
-			if (frame_base["symb"]) this->symb["par_world2L0"] = frame_base["symb"].as<std::vector<int>>();
+			if (frame_base["symb"]) this->symb["par_world2L0"] = read_list<int>(frame_base, "symb", 6);
 			else this->symb["par_world2L0"].assign(6, 0);
 			
-			if (frame_ee["symb"]) this->symb["par_Ln2EE"] = frame_ee["symb"].as<std::vector<int>>();
+			if (frame_ee["symb"]) this->symb["par_Ln2EE"] = read_list<int>(frame_ee, "symb", 6);
 			else this->symb["par_Ln2EE"].assign(6, 0);
 
-			if (config_file["gravity"]["symb"]) this->symb["par_gravity"] = config_file["gravity"]["symb"].as<std::vector<int>>();
+			if (config_file["gravity"]["symb"]) this->symb["par_gravity"] = read_list<int>(config_file["gravity"], "symb", 3);
 			else this->symb["par_gravity"].assign(3, 0);
 
 
@@ -671,7 +685,7 @@ namespace thunder_ns{
 				
 				// link friction
 				if (node.second["friction"]){
-					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+					std::vector<double> Dl = read_list<double>(node.second["friction"], "Dl", Dl_order);
 					for (int j=0; j<Dl_order; j++){
 						param_Dl(Dl_order*i + j) = Dl[j];
 					}
@@ -690,17 +704,17 @@ namespace thunder_ns{
 					std::string jointName = node.first.as<std::string>();
 					// stiffness
 					if (K_order > 0){
-						std::vector<double> K = node.second["K"].as<std::vector<double>>();
+						std::vector<double> K = read_list<double>(node.second, "K", K_order);
 						for (int j=0; j<K_order; j++) param_K(K_order*i+j) = K[j];
 					}
 					// coupling friction
 					if (D_order > 0){
-						std::vector<double> D = node.second["D"].as<std::vector<double>>();
+						std::vector<double> D = read_list<double>(node.second, "D", D_order);
 						for (int j=0; j<D_order; j++) param_D(D_order*i + j) = D[j];
 					}
 					// motor friction
 					if (Dm_order > 0){
-						std::vector<double> Dm = node.second["Dm"].as<std::vector<double>>();
+						std::vector<double> Dm = read_list<double>(node.second, "Dm", Dm_order);
 						for (int j=0; j<Dm_order; j++) param_Dm(Dm_order*i + j) = Dm[j];
 					}
 					// motor inertia
@@ -766,7 +780,7 @@ namespace thunder_ns{
 
 				// link friction
 				if (node.second["friction"]){
-					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+					std::vector<double> Dl = read_list<double>(node.second["friction"], "Dl", Dl_order);
 					for (int j=0; j<Dl_order; j++){
 						param_Dl(Dl_order*i + j) = Dl[j];
 					}
@@ -1176,7 +1190,7 @@ namespace thunder_ns{
 		Robot robot(file);
 		robot.robotName = robot_name;
 		// --- load parameters --- //
-		robot.load_conf_par(file);
+		if (!robot.load_conf_par(file)) throw std::runtime_error("Invalid parameters: " + file);
 		cout<<"Configuration loaded!"<<endl;
 		// --- compute functions --- //
 		if (compute){
-- 
2.43.0


From fcde747642d12001348ead09ffa89165a9fdf24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:29 +0000
Subject: [PATCH 24/28] fix: generated class refuses parameter lists shorter
 than the robot requires

load_conf and load_par_REG read past the end of lists that are shorter than
the number of joints or the orders the class was generated with.
---
 .../thunder_robot_template/thunder_robot.cpp  | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index a8b718d..f28e832 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -5,6 +5,16 @@
 /*OPTIONAL PYBIND11 INCLUDE POINT*/
 
 
+// list of at least 'size' entries, what comes after them is not used
+template <typename T> static std::vector<T> read_list(const YAML::Node& node, const std::string& name, int size){
+	std::vector<T> list = node[name].as<std::vector<T>>();
+	if ((int)list.size() < size){
+		throw YAML::Exception(node.Mark(), name + " needs " + std::to_string(size) + " entries, " + std::to_string(list.size()) + " given");
+	}
+	list.resize(size);
+	return list;
+}
+
 thunder_robot::thunder_robot(){
 	resizeVariables();
 }
@@ -351,7 +361,7 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 				
 				// - link friction - //
 				if (node.second["friction"]){
-					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+					std::vector<double> Dl = read_list<double>(node.second["friction"], "Dl", Dl_order);
 					for (int j=0; j<Dl_order; j++){
 						par_Dl(Dl_order*i + j) = Dl[j];
 					}
@@ -374,10 +384,10 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		if (config["kinematics"]){
 			// Denavit-Hartenberg
 			YAML::Node kinematics = config["kinematics"];
-			std::vector<double> dh_vect = kinematics["DH"].as<std::vector<double>>();
+			std::vector<double> dh_vect = read_list<double>(kinematics, "DH", n_joints*4);
 			// par_DHtable = Eigen::Map<Eigen::VectorXd>(&dh_vect[0], nj*4).reshaped<Eigen::RowMajor>(nj, 4);
 			if (kinematics["symb"]){
-				DHtable_symb = kinematics["symb"].as<std::vector<int>>();
+				DHtable_symb = read_list<int>(kinematics, "symb", n_joints*4);
 			} else {
 				// no parameters here
 			}
@@ -401,10 +411,10 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		// - Frame Offsets - //
 		if (config["Base_to_L0"]){
 			YAML::Node frame_base = config["Base_to_L0"];
-			std::vector<double> tr = frame_base["tr"].as<std::vector<double>>();
-			std::vector<double> ypr = frame_base["ypr"].as<std::vector<double>>();
+			std::vector<double> tr = read_list<double>(frame_base, "tr", 3);
+			std::vector<double> ypr = read_list<double>(frame_base, "ypr", 3);
 			if (frame_base["symb"]){
-				world2L0_symb = frame_base["symb"].as<std::vector<int>>();
+				world2L0_symb = read_list<int>(frame_base, "symb", 6);
 			} else {
 				// no parameters here
 			}
@@ -432,10 +442,10 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 
 		if (config["Ln_to_EE"]){
 			YAML::Node frame_ee = config["Ln_to_EE"];
-			std::vector<double> tr = frame_ee["tr"].as<std::vector<double>>();
-			std::vector<double> ypr = frame_ee["ypr"].as<std::vector<double>>();
+			std::vector<double> tr = read_list<double>(frame_ee, "tr", 3);
+			std::vector<double> ypr = read_list<double>(frame_ee, "ypr", 3);
 			if (frame_ee["symb"]){
-				Ln2EE_symb = frame_ee["symb"].as<std::vector<int>>();
+				Ln2EE_symb = read_list<int>(frame_ee, "symb", 6);
 			} else {
 				// no parameters here
 			}
@@ -486,7 +496,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				
 				// - link friction - //
 				if (node.second["friction"]){
-					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+					std::vector<double> Dl = read_list<double>(node.second["friction"], "Dl", Dl_order);
 					for (int j=0; j<Dl_order; j++){
 						par_Dl(Dl_order*index + j) = Dl[j];
 					}
@@ -498,9 +508,9 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		// - Gravity - //
 		if (config["gravity"]){
 			YAML::Node gravity_node = config["gravity"];
-			std::vector<double> grav = gravity_node["value"].as<std::vector<double>>();
+			std::vector<double> grav = read_list<double>(gravity_node, "value", 3);
 			if (gravity_node["symb"]){
-				gravity_symb = gravity_node["symb"].as<std::vector<int>>();
+				gravity_symb = read_list<int>(gravity_node, "symb", 3);
 			} else {
 				// no parameters here
 			}
@@ -528,19 +538,19 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				std::string jointName = node.first.as<std::string>();
 				// stiffness
 				for (int j=0; j<K_order; j++){
-					std::vector<double> K = node.second["K"].as<std::vector<double>>();
+					std::vector<double> K = read_list<double>(node.second, "K", K_order);
 					par_K(K_order*index+j) = K[j];
 					// std::cout<<"K_"<<j<<": "<<K[j] << std::endl;
 				}
 				// coupling friction
 				for (int j=0; j<D_order; j++){
-					std::vector<double> D = node.second["D"].as<std::vector<double>>();
+					std::vector<double> D = read_list<double>(node.second, "D", D_order);
 					par_D(D_order*index + j) = D[j];
 					// std::cout<<"D_"<<j<<": "<<D[j] << std::endl;
 				}
 				// motor friction
 				for (int j=0; j<Dm_order; j++){
-					std::vector<double> Dm = node.second["Dm"].as<std::vector<double>>();
+					std::vector<double> Dm = read_list<double>(node.second, "Dm", Dm_order);
 					par_Dm(Dm_order*index + j) = Dm[j];
 					// std::cout<<"Dm_"<<j<<": "<<Dm[j] << std::endl;
 				}
-- 
2.43.0


From adde92a2d2581602b5c2cb27a582155e2b6426c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 25/28] fix: add_function changes nothing when the function
 cannot be built

---
 src/thunder/src/robot.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 8723b7a..d11d93f 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1011,10 +1011,6 @@ namespace thunder_ns{
 			// key already exists
 			return 0;
 		} else {
-			model[f_name] = expr;
-			fun_args[f_name] = f_args;
-			fun_descr[f_name] = descr;
-
 			casadi::SXVector inputs(f_args.size());
 			// for (const auto& arg : f_args) {
 			// 	inputs.push_back(model[arg]);
@@ -1027,7 +1023,7 @@ namespace thunder_ns{
 				// std::cout << "arg: " << arg << std::endl;
 				const std::vector<int> symb_flag = symb.count(arg) ? symb[arg] : std::vector<int>();
 				std::vector<casadi::SX> par_symb;
-				casadi::SX& par_model = model[arg];
+				const casadi::SX par_model = model.count(arg) ? model[arg] : casadi::SX();
 				// cout << "model[arg]: " << par_model << endl;
 				// cout << "symb_flag: " << symb_flag << endl;
 				int sz_original = par_model.size().first;
@@ -1057,6 +1053,10 @@ namespace thunder_ns{
 
 			casadi::Function fun(robotName+"_get_"+f_name+"_fun", inputs, {densify(expr)});
 			// cout<<"fun: "<<fun<<endl;
+			// store everything only now: nothing changes when the function cannot be built
+			model[f_name] = expr;
+			fun_args[f_name] = f_args;
+			fun_descr[f_name] = descr;
 			casadi_fun[f_name] = fun;
 		}
 
-- 
2.43.0


From af45d89086660ad9d27e79d50606ba9de481edd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 26/28] fix: loaders of the generated class change nothing when
 the file is refused

---
 .../thunder_robot_template/thunder_robot.cpp  | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index f28e832..632a379 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -334,6 +334,7 @@ Eigen::VectorXd thunder_robot::get_par_Ln2EE(){
 }
 
 Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_DYN){
+	const thunder_robot before = *this;
 	try {
 		YAML::Node config = YAML::LoadFile(file_path);
 		int i;
@@ -372,11 +373,15 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 		}
 	} catch (const YAML::Exception& e) {
 		std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+		// nothing of the file is used
+		par_REG = before.par_REG;
+		par_Dl = before.par_Dl;
 	}
 	return par_REG;
 }
 
 void thunder_robot::load_conf(std::string file_path, bool update_REG){
+	const thunder_robot before = *this;
 	try {
 		YAML::Node config = YAML::LoadFile(file_path);
 		int index;
@@ -562,6 +567,22 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		}
 	} catch (const YAML::Exception& e) {
 		std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+		// nothing of the file is used
+		par_DYN = before.par_DYN;
+		par_REG = before.par_REG;
+		par_Dl = before.par_Dl;
+		par_K = before.par_K;
+		par_D = before.par_D;
+		par_Dm = before.par_Dm;
+		par_Mm = before.par_Mm;
+		par_DHtable = before.par_DHtable;
+		par_gravity = before.par_gravity;
+		par_world2L0 = before.par_world2L0;
+		par_Ln2EE = before.par_Ln2EE;
+		DHtable_symb = before.DHtable_symb;
+		gravity_symb = before.gravity_symb;
+		world2L0_symb = before.world2L0_symb;
+		Ln2EE_symb = before.Ln2EE_symb;
 	}
 }
 
-- 
2.43.0


From a37f462dbd487c5fd39389fadcde0a224f320abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 27/28] fix: genInertial_files ignores surplus links and
 refuses short friction lists

---
 src/thunder/src/genYaml.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thunder/src/genYaml.cpp b/src/thunder/src/genYaml.cpp
index 3538694..9a45738 100644
--- a/src/thunder/src/genYaml.cpp
+++ b/src/thunder/src/genYaml.cpp
@@ -51,6 +51,7 @@ namespace thunder_ns{
 
 			int link_index = 0;
 			for (const auto& node : dynamics) {
+				if (link_index == num_joints) break; // further links are not used
 
 				YAML::Node inertial = node.second["inertial"];
 				LinkProp properties;
@@ -76,6 +77,7 @@ namespace thunder_ns{
 					properties.Dl.resize(Dl_order);
 					YAML::Node friction = node.second["friction"];
 					if (friction) properties.Dl = friction["Dl"].as<std::vector<double>>(); // no friction if omitted
+					if ((int)properties.Dl.size() < Dl_order) throw YAML::Exception(friction.Mark(), "Dl needs " + std::to_string(Dl_order) + " entries");
 					// std::cout<<"Dl_read: " << Dl << std::endl;
 					// for (int j=0; j<Dl_order; j++){
 					// 	properties.Dl[j] = Dl[j];
-- 
2.43.0


From 3d4b912fc83b338e2cbc168b9715a2ce879e09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 28/28] fix: load_par changes nothing when the file is refused

---
 src/thunder/src/robot.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index d11d93f..bbd6def 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -805,13 +805,14 @@ namespace thunder_ns{
 	}
 
 	int Robot::load_par(std::string par_file, std::vector<std::string> par_list){
+		std::map<std::string, casadi::SX> loaded = args; // used only when the whole file is accepted
 		try {
 			// load yaml
 			YAML::Node yamlFile = YAML::LoadFile(par_file);
 			if (par_list.size() == 0){
 				for (const auto& node : yamlFile){
 					std::vector<double> par_vect = node.second.as<std::vector<double>>();
-					casadi::SX& par = args[node.first.as<std::string>()];
+					casadi::SX& par = loaded[node.first.as<std::string>()];
 					for (int i=0; i<par_vect.size(); i++){
 						par(i) = par_vect[i];
 					}
@@ -819,16 +820,17 @@ namespace thunder_ns{
 			} else {
 				for (std::string par_str : par_list){
 					std::vector<double> par_vect = yamlFile[par_str].as<std::vector<double>>();
-					casadi::SX& par = args[par_str];
+					casadi::SX& par = loaded[par_str];
 					for (int i=0; i<par_vect.size(); i++){
 						par(i) = par_vect[i];
 					}
 				}
 			}
-		} catch (const YAML::Exception& e) {
+		} catch (const std::exception& e) {
 			std::cerr << "Error while loading parameters: " << e.what() << std::endl;
 			return 0;
 		}
+		args = loaded;
 		return 1;
 	}
 
-- 
2.43.0

