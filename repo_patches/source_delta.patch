From c6e12a3de9e4d34b6ea8efa53df411acb02f1e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 01/15] fix: elastic coupling uses the joint index of each
 elastic joint

---
 src/thunder/src/dynamics.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/dynamics.cpp b/src/thunder/src/dynamics.cpp
index d07014d..be0de41 100644
--- a/src/thunder/src/dynamics.cpp
+++ b/src/thunder/src/dynamics.cpp
@@ -299,6 +299,11 @@ namespace thunder_ns{
 			// 		Dm(i) += pow(dx(i), ord+1) * par_Dm(i*Dm_order+ord);
 			// 	}
 			// }
+			// indexes of the elastic joints
+			std::vector<int> elasticJoints;
+			for (int j=0; j<nj; j++){
+				if (isElasticJoint[j]) elasticJoints.push_back(j);
+			}
 			// function vectors
 			casadi::SX k(numElasticJoints,1);
 			casadi::SX d(numElasticJoints,1);
@@ -312,16 +317,17 @@ namespace thunder_ns{
 			// casadi::SX Dm(numElasticJoints,numElasticJoints);
 			casadi::SX Mm(numElasticJoints,numElasticJoints);
 			for (int i=0; i<numElasticJoints; i++){
+				int joint = elasticJoints[i];	// joint moved by the i-th elastic actuator
 				for (int ord=0; ord<K_order; ord++){
-					k(i) += pow(x(i)-q(i), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
+					k(i) += pow(x(i)-q(joint), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
 					K_vec[ord].resize(numElasticJoints,numElasticJoints);
 					K_vec[ord](i,i) = par_K(i*K_order + ord);
 				}
 				for (int ord=0; ord<D_order; ord++){
 					if (ord%2 == 0){
-						d(i) += pow(dx(i)-dq(i), ord+1) * par_D(i*D_order+ord);
+						d(i) += pow(dx(i)-dq(joint), ord+1) * par_D(i*D_order+ord);
 					} else {
-						d(i) += sqrt(pow(dx(i)-dq(i), 2)) * pow(dx(i)-dq(i), ord) * par_D(i*D_order+ord);
+						d(i) += sqrt(pow(dx(i)-dq(joint), 2)) * pow(dx(i)-dq(joint), ord) * par_D(i*D_order+ord);
 					}
 					D_vec[ord].resize(numElasticJoints,numElasticJoints);
 					D_vec[ord](i,i) = par_D(i*D_order + ord);
-- 
2.43.0


From cc5f39281d4a76e28f385a22a3f81c8b34a1167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 02/15] fix: setting inertial parameters refreshes the other
 set

---
 src/thunder/src/robot.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 3a902f2..445eb74 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -512,13 +512,13 @@ namespace thunder_ns{
 			for (int i=0; i<numPar; i++){
 				par_DYN(i) = value(i);
 			}
+			// change par_REG
+			update_inertial_REG();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		// change par_REG
-		update_inertial_REG();
 	}
 
 	int Robot::set_par_REG(Eigen::VectorXd value){
@@ -528,12 +528,13 @@ namespace thunder_ns{
 			for (int i=0; i<numPar; i++){
 				par_REG(i) = value(i);
 			}
+			// change par_DYN
+			update_inertial_DYN();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		update_inertial_DYN();
 	}
 
 
@@ -916,6 +917,8 @@ namespace thunder_ns{
 	}
 
 	int Robot::update_inertial_DYN(){
+		// not possible if only the symbolic entries are stored
+		if (args["par_DYN"].size1() != STD_PAR_LINK*numJoints) return 0;
 		// not efficient, should be made in casadi
 		Eigen::VectorXd param_REG = get_par_REG();
 		Eigen::VectorXd param_DYN(STD_PAR_LINK*numJoints);
@@ -935,11 +938,12 @@ namespace thunder_ns{
 			// }
 			param_DYN.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, CoM, I-I_tmp_v;
 		}
-		set_par_DYN(param_DYN);
-		return 1;
+		return set_arg("par_DYN", param_DYN);
 	}
 
 	int Robot::update_inertial_REG(){
+		// not possible if only the symbolic entries are stored
+		if (args["par_DYN"].size1() != STD_PAR_LINK*numJoints) return 0;
 		// not efficient, should be made in casadi
 		Eigen::VectorXd param_DYN = get_par_DYN();
 		// cout<<"param_DYN:"<<endl<<param_DYN<<endl<<endl;
@@ -968,8 +972,7 @@ namespace thunder_ns{
 			// }
 			param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, m_CoM, I+I_tmp_v;
 		}
-		set_par_REG(param_REG);
-		return 1;
+		return set_arg("par_REG", param_REG);
 	}
 
 	int Robot::add_function(std::string f_name, casadi::SX expr, std::vector<std::string> f_args, std::string descr, bool overwrite){
-- 
2.43.0


From 04d302b7b773fb44d06fc724e8dcce52209d9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 03/15] fix: inertial getters and setters follow the stored
 vector

---
 src/thunder/src/robot.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 445eb74..b40db60 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -507,7 +507,7 @@ namespace thunder_ns{
 
 	int Robot::set_par_DYN(Eigen::VectorXd value){
 		casadi::SX& par_DYN = args["par_DYN"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_DYN.size1();
 		if (value.size() == numPar){
 			for (int i=0; i<numPar; i++){
 				par_DYN(i) = value(i);
@@ -523,7 +523,7 @@ namespace thunder_ns{
 
 	int Robot::set_par_REG(Eigen::VectorXd value){
 		casadi::SX& par_REG = args["par_REG"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_REG.size1();
 		if (value.size() == numPar){
 			for (int i=0; i<numPar; i++){
 				par_REG(i) = value(i);
@@ -542,25 +542,25 @@ namespace thunder_ns{
 		const casadi::SX& par_casadi = args[par];
 		int numPar = par_casadi.size1() * par_casadi.size2();
 		Eigen::VectorXd param(numPar);
-		std::vector<casadi::SXElem> res_elements = par_casadi.get_elements();
+		std::vector<casadi::SXElem> res_elements = casadi::SX::densify(par_casadi).get_elements();
 		std::transform(res_elements.begin(), res_elements.end(), param.data(), mapFunction);
 		return param;
 	}
 
 	Eigen::VectorXd Robot::get_par_DYN(){
 		const casadi::SX& par_DYN_casadi = args["par_DYN"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_DYN_casadi.size1() * par_DYN_casadi.size2();
 		Eigen::VectorXd param_DYN(numPar);
-		std::vector<casadi::SXElem> res_elements = par_DYN_casadi.get_elements();
+		std::vector<casadi::SXElem> res_elements = casadi::SX::densify(par_DYN_casadi).get_elements();
 		std::transform(res_elements.begin(), res_elements.end(), param_DYN.data(), mapFunction);
 		return param_DYN;
 	}
 
 	Eigen::VectorXd Robot::get_par_REG(){
 		const casadi::SX& par_REG_casadi = args["par_REG"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_REG_casadi.size1() * par_REG_casadi.size2();
 		Eigen::VectorXd param_REG(numPar);
-		std::vector<casadi::SXElem> res_elements = par_REG_casadi.get_elements();
+		std::vector<casadi::SXElem> res_elements = casadi::SX::densify(par_REG_casadi).get_elements();
 		std::transform(res_elements.begin(), res_elements.end(), param_REG.data(), mapFunction);
 		return param_REG;
 	}
-- 
2.43.0


From eb4d386371bb5949a2f05dc92db41971758c1485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 04/15] fix: load_par_REG reads the layout that save_par_REG
 writes

---
 src/thunder/src/robot.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index b40db60..75ee329 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -733,28 +733,29 @@ namespace thunder_ns{
 			// load yaml
 			YAML::Node config_file = YAML::LoadFile(file);
 			// load inertial
-			YAML::Node inertial = config_file["inertial"];
+			YAML::Node dynamics = config_file["dynamics"];
 			int i = 0;
-			for (const auto& node : inertial) {
+			for (const auto& node : dynamics) {
+				YAML::Node inertial = node.second["inertial"];
 				
 				if (i==numJoints) break;
 				std::string linkName = node.first.as<std::string>();
 				
-				// standard parameters
-				param_REG(STD_PAR_LINK*i) = node.second["mass"].as<double>();
-				param_REG(STD_PAR_LINK*i+1) = node.second["m_CoM_x"].as<double>();
-				param_REG(STD_PAR_LINK*i+2) = node.second["m_CoM_y"].as<double>();
-				param_REG(STD_PAR_LINK*i+3) = node.second["m_CoM_z"].as<double>();
-				param_REG(STD_PAR_LINK*i+4) = node.second["Ixx"].as<double>();
-				param_REG(STD_PAR_LINK*i+5) = node.second["Ixy"].as<double>();
-				param_REG(STD_PAR_LINK*i+6) = node.second["Ixz"].as<double>();
-				param_REG(STD_PAR_LINK*i+7) = node.second["Iyy"].as<double>();
-				param_REG(STD_PAR_LINK*i+8) = node.second["Iyz"].as<double>();
-				param_REG(STD_PAR_LINK*i+9) = node.second["Izz"].as<double>();
+				// regressor parameters
+				param_REG(STD_PAR_LINK*i) = inertial["mass"].as<double>();
+				param_REG(STD_PAR_LINK*i+1) = inertial["m_CoM_x"].as<double>();
+				param_REG(STD_PAR_LINK*i+2) = inertial["m_CoM_y"].as<double>();
+				param_REG(STD_PAR_LINK*i+3) = inertial["m_CoM_z"].as<double>();
+				param_REG(STD_PAR_LINK*i+4) = inertial["Ixx"].as<double>();
+				param_REG(STD_PAR_LINK*i+5) = inertial["Ixy"].as<double>();
+				param_REG(STD_PAR_LINK*i+6) = inertial["Ixz"].as<double>();
+				param_REG(STD_PAR_LINK*i+7) = inertial["Iyy"].as<double>();
+				param_REG(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();
+				param_REG(STD_PAR_LINK*i+9) = inertial["Izz"].as<double>();
 
 				// link friction
-				if (node.second["Dl"]){
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+				if (node.second["friction"]){
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
 						param_Dl(Dl_order*i + j) = Dl[j];
 					}
-- 
2.43.0


From 349fd548f7e7fb86f1a53cd3c40d1b956a571f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 05/15] fix: check the number of joint types before using them

---
 src/thunder/src/robot.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 75ee329..67a91c8 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -56,6 +56,9 @@ namespace thunder_ns{
 			nj = config_file["num_joints"].as<int>();
 			this->numJoints = nj;
 			this->jointsType = config_file["type_joints"].as<std::vector<std::string>>();
+			if (this->jointsType.size() != this->numJoints) {
+				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
+			}
 
 			// Friction model order (defaults to 0)
 			this->Dl_order = config_file["Dl_order"] ? config_file["Dl_order"].as<int>() : 0;
@@ -202,10 +205,6 @@ namespace thunder_ns{
 
 
 			// ---- Finalize Robot State and CasADi Model ---- //
-			if (this->jointsType.size() != this->numJoints) {
-				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
-			}
-			
 			// Define symbolic variables for the model
 			this->model = {
 				{"par_DHtable", casadi::SX::sym("DHtable", this->numJoints * 4)},
-- 
2.43.0


From d60f6f7c383c4a9d0f403906f516514c9a46f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 06/15] fix: symbolic flag lists never exceed the parameter
 vectors

---
 src/thunder/src/robot.cpp                           | 13 +++++++++++++
 .../thunder_robot_template/thunder_robot.cpp        |  6 +++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 67a91c8..ec50aff 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -121,10 +121,12 @@ namespace thunder_ns{
 			YAML::Node dynamics = config_file["dynamics"];
 			int link_index = 0;
 			for (const auto& node : dynamics) {
+				if (link_index == nj) break; // more links than joints
 				YAML::Node inertial = node.second["inertial"];
 				std::vector<int> link_symb;
 				if (inertial["symb"]) {
 					link_symb = inertial["symb"].as<std::vector<int>>();
+					link_symb.resize(STD_PAR_LINK);
 				} else {
 					link_symb.assign(STD_PAR_LINK, 0); // Default to non-symbolic
 				}
@@ -138,10 +140,12 @@ namespace thunder_ns{
 				par_Dl_symb.resize(this->Dl_order * nj);
 				link_index = 0;
 				for (const auto& node : dynamics) {
+					if (link_index == nj) break; // more links than joints
 					YAML::Node friction = node.second["friction"];
 					std::vector<int> fric_symb;
 					if (friction["symb"]) {
 						fric_symb = friction["symb"].as<std::vector<int>>();
+						fric_symb.resize(this->Dl_order);
 					} else {
 						fric_symb.assign(this->Dl_order, 0);
 					}
@@ -203,6 +207,15 @@ namespace thunder_ns{
 			if (config_file["gravity"]["symb"]) this->symb["par_gravity"] = config_file["gravity"]["symb"].as<std::vector<int>>();
 			else this->symb["par_gravity"].assign(3, 0);
 
+			// one flag for each parameter
+			this->symb["par_DHtable"].resize(nj * 4);
+			this->symb["par_world2L0"].resize(6);
+			this->symb["par_Ln2EE"].resize(6);
+			this->symb["par_gravity"].resize(3);
+			this->symb["par_K"].resize(this->numElasticJoints * this->K_order);
+			this->symb["par_D"].resize(this->numElasticJoints * this->D_order);
+			this->symb["par_Dm"].resize(this->numElasticJoints * this->Dm_order);
+			this->symb["par_Mm"].resize(this->ELASTIC ? this->numElasticJoints : 0);
 
 			// ---- Finalize Robot State and CasADi Model ---- //
 			// Define symbolic variables for the model
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 0b06891..8658698 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -372,10 +372,11 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// par_DHtable = Eigen::Map<Eigen::VectorXd>(&dh_vect[0], nj*4).reshaped<Eigen::RowMajor>(nj, 4);
 			if (kinematics["symb"]){
 				DHtable_symb = kinematics["symb"].as<std::vector<int>>();
+				DHtable_symb.resize(n_joints*4);
 			} else {
 				// no parameters here
 			}
-			int sz = dh_vect.size();
+			int sz = std::min<int>(dh_vect.size(), n_joints*4);
 			// par_DHtable.resize(sz);
 			// for (int i=0; i<sz; i++){
 			// 		par_DHtable(i) = dh_vect[i];
@@ -397,6 +398,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			YAML::Node frame_base = config["Base_to_L0"];
 			if (frame_base["symb"]){
 				world2L0_symb = frame_base["symb"].as<std::vector<int>>();
+				world2L0_symb.resize(6);
 			} else {
 				// no parameters here
 			}
@@ -428,6 +430,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			YAML::Node frame_ee = config["Ln_to_EE"];
 			if (frame_ee["symb"]){
 				Ln2EE_symb = frame_ee["symb"].as<std::vector<int>>();
+				Ln2EE_symb.resize(6);
 			} else {
 				// no parameters here
 			}
@@ -494,6 +497,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			YAML::Node gravity_node = config["gravity"];
 			if (gravity_node["symb"]){
 				gravity_symb = gravity_node["symb"].as<std::vector<int>>();
+				gravity_symb.resize(3);
 			} else {
 				// no parameters here
 			}
-- 
2.43.0


From 60f19493192e5af8897be3e1d40a531732338cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 07/15] fix: report failures of loading and saving

---
 src/thunder/src/robot.cpp                            | 10 +++++++---
 src/thunder/thunder_main.cpp                         |  6 ++++--
 src/thunder/thunder_robot_template/thunder_robot.cpp |  1 +
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index ec50aff..3103353 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -20,7 +20,7 @@ namespace thunder_ns{
 	}
 
 	Robot::Robot(const YAML::Node yaml){
-		load_config(yaml); 		// load config and parameters from yaml file
+		if (!load_config(yaml)) throw std::runtime_error("Invalid configuration"); 		// load config and parameters from yaml file
 		initVarsFuns();			// initialize variables
 	}
 
@@ -32,7 +32,7 @@ namespace thunder_ns{
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while loading YAML: " << e.what() << std::endl;
 		}
-		parse_config();
+		if (!parse_config()) throw std::runtime_error("Invalid configuration file: " + config_file);
 		return config_yaml;
 	}
 	int Robot::load_config(YAML::Node yaml){
@@ -724,6 +724,7 @@ namespace thunder_ns{
 			}
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+			return 0;
 		}
 		args["par_DYN"] = param_DYN;
 		if (Dl_order > 0) args["par_Dl"] = param_Dl;
@@ -835,6 +836,7 @@ namespace thunder_ns{
 			std::ofstream fout(par_file);
 			fout << emitter.c_str();
 			fout.close();
+			if (!fout) return 0;
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 			return 0;
@@ -889,6 +891,7 @@ namespace thunder_ns{
 			std::ofstream fout(par_file);
 			fout << emitter.c_str();
 			fout.close();
+			if (!fout) return 0;
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 			return 0;
@@ -922,6 +925,7 @@ namespace thunder_ns{
 			std::ofstream fout(par_file);
 			fout << emitter.c_str();
 			fout.close();
+			if (!fout) return 0;
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 			return 0;
@@ -1146,7 +1150,7 @@ namespace thunder_ns{
 		Robot robot(file);
 		robot.robotName = robot_name;
 		// --- load parameters --- //
-		robot.load_conf_par(file);
+		if (!robot.load_conf_par(file)) throw std::runtime_error("Invalid parameters in configuration file: " + file);
 		cout<<"Configuration loaded!"<<endl;
 		// --- compute functions --- //
 		if (compute){
diff --git a/src/thunder/thunder_main.cpp b/src/thunder/thunder_main.cpp
index b8ed7a8..d279f2e 100755
--- a/src/thunder/thunder_main.cpp
+++ b/src/thunder/thunder_main.cpp
@@ -195,8 +195,10 @@ int main(int argc, char* argv[]){
 	// --- generate parameters files --- //
 	std::string par_file = absolutePath + robot_name + "_conf.yaml";
 	std::string par_REG_file = absolutePath + robot_name + "_par_REG.yaml";
-	robot.save_conf(par_file);
-	robot.save_par_REG(par_REG_file);
+	if (!robot.save_conf(par_file) || !robot.save_par_REG(par_REG_file)) {
+		cout<<"problem on saving parameters files"<<endl;
+		return 0;
+	}
 	// if (!genInertial_files(robot_name, nj, config_file, par_file, par_REG_file)){
 	// 	return 0;
 	// }
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 8658698..f2bddc0 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -722,6 +722,7 @@ int thunder_robot::save_par(std::string par_file){
 		std::ofstream fout(par_file);
 		fout << emitter.c_str();
 		fout.close();
+		if (!fout) return 0;
 	} catch (const YAML::Exception& e) {
 		std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 		return 0;
-- 
2.43.0


From 233afd28ee134e884aac236bfe48d36619751db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 08/15] fix: report failures of writing and copying generated
 files

---
 src/thunder/src/robot.cpp    | 1 +
 src/thunder/src/utils.cpp    | 6 +++++-
 src/thunder/thunder_main.cpp | 4 ++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 3103353..a0d792d 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -31,6 +31,7 @@ namespace thunder_ns{
 			config_yaml = YAML::LoadFile(config_file);
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while loading YAML: " << e.what() << std::endl;
+			throw;
 		}
 		if (!parse_config()) throw std::runtime_error("Invalid configuration file: " + config_file);
 		return config_yaml;
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 315ec68..b04630d 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -171,12 +171,13 @@ namespace thunder_ns{
 			ofstream out_h(file_path_h);
 			out_h << file_content_h;
 			out_h.close();
+			if (!out_h) return 0;
 		}
 
 		// --- file .cpp --- //
 		if(gen_python){
 			// - add bindings template - //
-			add_bindings_template(file_path_cpp);
+			if (!add_bindings_template(file_path_cpp)) return 0;
 		}
 
 		ifstream file_cpp(file_path_cpp); // open in reading mode
@@ -250,6 +251,7 @@ namespace thunder_ns{
 			ofstream out_cpp(file_path_cpp);
 			out_cpp << file_content_cpp;
 			out_cpp.close();
+			if (!out_cpp) return 0;
 		}
 
 		return 1;
@@ -274,6 +276,7 @@ namespace thunder_ns{
 			ofstream out_cmake(file_path);
 			out_cmake << file_content_cmake;
 			out_cmake.close();
+			if (!out_cmake) return 0;
 		}
 		return 1;
 	}
@@ -357,6 +360,7 @@ PYBIND11_MODULE(thunder_robot_py, m) {
 			ofstream out_cpp(file_path_cpp);
 			out_cpp << file_content_cpp;
 			out_cpp.close();
+			if (!out_cpp) return 0;
 		}
 		return 1;
 	}
diff --git a/src/thunder/thunder_main.cpp b/src/thunder/thunder_main.cpp
index d279f2e..8493431 100755
--- a/src/thunder/thunder_main.cpp
+++ b/src/thunder/thunder_main.cpp
@@ -221,13 +221,13 @@ int main(int argc, char* argv[]){
 	
 	// --- copy generated files in thunder_robot project --- //
 	if(COPY_GEN_FLAG){
-		copy_to(robot_name, absolutePath, PATH_COPY_YAML, PATH_COPY_YAML, PATH_COPY_H, PATH_COPY_CPP);
+		if (!copy_to(robot_name, absolutePath, PATH_COPY_YAML, PATH_COPY_YAML, PATH_COPY_H, PATH_COPY_CPP)) return 0;
 		std::cout << "Copied to thunder_robot!" << std::endl;
 	}
 
 	// --- copy generated files in thunder_robot project --- //
 	if(COPY_GEN_CHRONO_FLAG){
-		copy_to(robot_name, absolutePath, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_H, PATH_COPY_CHRONO_CPP);
+		if (!copy_to(robot_name, absolutePath, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_H, PATH_COPY_CHRONO_CPP)) return 0;
 		std::cout << "Copied to thunder_robot_chrono!" << std::endl;
 	}
 
-- 
2.43.0


From 4f9b45ac946c555828b5875424e62b770ca9320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 09/15] fix: sign of the (0,2) entry of the roll-pitch-yaw
 rotation

---
 src/genYAML/src/urdf2dh_inertial.cpp                 | 2 +-
 src/thunder/src/FrameOffset.cpp                      | 4 ++--
 src/thunder/src/utils.cpp                            | 2 +-
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/genYAML/src/urdf2dh_inertial.cpp b/src/genYAML/src/urdf2dh_inertial.cpp
index 7cbbf2d..bc836fe 100644
--- a/src/genYAML/src/urdf2dh_inertial.cpp
+++ b/src/genYAML/src/urdf2dh_inertial.cpp
@@ -94,7 +94,7 @@ namespace thunder_ns{
         //template R yaw-pitch-roll
         rotTr(0,0)=cy*cp;
         rotTr(0,1)=cy*sp*sr-sy*cr;
-        rotTr(0,2)=cy*sp*cr-sy*sr;
+        rotTr(0,2)=cy*sp*cr+sy*sr;
         rotTr(1,0)=sy*cp;
         rotTr(1,1)=sy*sp*sr+cy*cr;
         rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/FrameOffset.cpp b/src/thunder/src/FrameOffset.cpp
index 9ade626..7860700 100644
--- a/src/thunder/src/FrameOffset.cpp
+++ b/src/thunder/src/FrameOffset.cpp
@@ -55,7 +55,7 @@ namespace thunder_ns{
 		//template rotation yaw-pitch-roll
 		R(0,0)=cy*cp;
 		R(0,1)=cy*sp*sr-sy*cr;
-		R(0,2)=cy*sp*cr-sy*sr;
+		R(0,2)=cy*sp*cr+sy*sr;
 		R(1,0)=sy*cp;
 		R(1,1)=sy*sp*sr+cy*cr;
 		R(1,2)=sy*sp*cr-cy*sr;
@@ -94,7 +94,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index b04630d..b3db743 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -77,7 +77,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index f2bddc0..75d36d6 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -805,7 +805,7 @@ Eigen::Matrix3d thunder_robot::rpyRot(const std::vector<double> rpy){
 	//template R yaw-pitch-roll
 	rotTr(0,0)=cy*cp;
 	rotTr(0,1)=cy*sp*sr-sy*cr;
-	rotTr(0,2)=cy*sp*cr-sy*sr;
+	rotTr(0,2)=cy*sp*cr+sy*sr;
 	rotTr(1,0)=sy*cp;
 	rotTr(1,1)=sy*sp*sr+cy*cr;
 	rotTr(1,2)=sy*sp*cr-cy*sr;
-- 
2.43.0


From d1bd7563292a81e9823bccc218ed15f9de27241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 10/15] fix: inertial setters of the generated class ignore
 vectors of the wrong size

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 75d36d6..e3532f6 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -190,21 +190,21 @@ void thunder_robot::update_inertial_REG(){
 void thunder_robot::set_par_DYN(const Eigen::VectorXd& par_, bool update_REG){
 	if(par_.size() == par_DYN.size()){
 		par_DYN = par_;
+		// conversion from DYN to REG
+		if (update_REG)	update_inertial_REG();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_REG)	update_inertial_REG();
 }
 
 void thunder_robot::set_par_REG(const Eigen::VectorXd& par_, bool update_DYN){
 	if(par_.size() == par_REG.size()){
 		par_REG = par_;
+		// conversion from REG to DYN
+		if (update_DYN)	update_inertial_DYN();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_DYN)	update_inertial_DYN();
 }
 
 void thunder_robot::set_par_K(const Eigen::VectorXd& par_){
-- 
2.43.0


From cc28000a2095dd401a9e41da23482c8bdb448670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 11/15] fix: save_par of the generated class uses the names
 load_par expects

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index e3532f6..19a4799 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -675,19 +675,19 @@ int thunder_robot::save_par(std::string par_file){
 
 		// - save DHtable - //
 		std::vector<double> DHtable_vect(par_DHtable.data(), par_DHtable.data() + par_DHtable.rows() * par_DHtable.cols());
-		yamlFile["DHtable"] = DHtable_vect;
+		yamlFile["par_DHtable"] = DHtable_vect;
 
 		// - save world2L0 - //
 		std::vector<double> world2L0_vect(par_world2L0.data(), par_world2L0.data() + par_world2L0.rows() * par_world2L0.cols());
-		yamlFile["world2L0"] = world2L0_vect;
+		yamlFile["par_world2L0"] = world2L0_vect;
 
 		// - save Ln2EE - //
 		std::vector<double> Ln2EE_vect(par_Ln2EE.data(), par_Ln2EE.data() + par_Ln2EE.rows() * par_Ln2EE.cols());
-		yamlFile["Ln2EE"] = Ln2EE_vect;
+		yamlFile["par_Ln2EE"] = Ln2EE_vect;
 
 		// - save gravity - //
 		std::vector<double> gravity_vect(par_gravity.data(), par_gravity.data() + par_gravity.rows() * par_gravity.cols());
-		yamlFile["gravity"] = gravity_vect;
+		yamlFile["par_gravity"] = gravity_vect;
 
 		// - save par_DYN - //
 		std::vector<double> par_DYN_vect(par_DYN.data(), par_DYN.data() + par_DYN.rows() * par_DYN.cols());
-- 
2.43.0


From 0d1ce1d79a99065acb757df1bf5b89ac4cd93eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 12/15] fix: reject frame offsets and gravity of the wrong
 length

---
 src/thunder/src/FrameOffset.cpp | 10 ++++++++--
 src/thunder/src/robot.cpp       |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/FrameOffset.cpp b/src/thunder/src/FrameOffset.cpp
index 7860700..4d3cc83 100644
--- a/src/thunder/src/FrameOffset.cpp
+++ b/src/thunder/src/FrameOffset.cpp
@@ -119,9 +119,15 @@ namespace thunder_ns{
 	
 	void FrameOffset::set_gravity(const std::vector<double>& g_){gravity = g_;}
 	
-	void FrameOffset::set_translation(const std::vector<double>& pos_){translation = pos_;}
+	void FrameOffset::set_translation(const std::vector<double>& pos_){
+		if (pos_.size()!=3) throw std::runtime_error("in FrameOffset::set_translation: invalid dimension of arguments");
+		translation = pos_;
+	}
 	
-	void FrameOffset::set_ypr(const std::vector<double>& ypr_){ypr = ypr_;}
+	void FrameOffset::set_ypr(const std::vector<double>& ypr_){
+		if (ypr_.size()!=3) throw std::runtime_error("in FrameOffset::set_ypr: invalid dimension of arguments");
+		ypr = ypr_;
+	}
 	
 	casadi::SX FrameOffset::hat(const std::vector<double>& v){
 		
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index a0d792d..016b1c3 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -101,6 +101,7 @@ namespace thunder_ns{
 			std::vector<double> gravity_vect = {0.0, 0.0, 0.0}; // default no gravity
 			if (config_file["gravity"]){
 				gravity_vect = config_file["gravity"]["value"].as<std::vector<double>>();
+				if (gravity_vect.size() != 3) throw std::runtime_error("'gravity' must have 3 values.");
 			}
 
 			// Frame Offsets
-- 
2.43.0


From 0681c324c817d4d62d09c2bf2045c8bb8deb4dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 13/15] fix: genInertial_files reads friction where the
 configuration has it and stays in range

---
 src/thunder/src/genYaml.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thunder/src/genYaml.cpp b/src/thunder/src/genYaml.cpp
index 093daa6..2dda08f 100644
--- a/src/thunder/src/genYaml.cpp
+++ b/src/thunder/src/genYaml.cpp
@@ -51,6 +51,7 @@ namespace thunder_ns{
 
 			int link_index = 0;
 			for (const auto& node : dynamics) {
+				if (link_index == num_joints) break; // more links than joints
 
 				YAML::Node inertial = node.second["inertial"];
 				LinkProp properties;
@@ -75,7 +76,7 @@ namespace thunder_ns{
 				if (Dl_order){
 					properties.Dl.resize(Dl_order);
 					YAML::Node friction = node.second["friction"];
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+					std::vector<double> Dl = friction["Dl"].as<std::vector<double>>();
 					properties.Dl = Dl;
 					// std::cout<<"Dl_read: " << Dl << std::endl;
 					// for (int j=0; j<Dl_order; j++){
@@ -124,6 +125,7 @@ namespace thunder_ns{
 				std::ofstream fout(out_REG_file);
 				fout << emitter.c_str();
 				fout.close();
+				if (!fout) return 0;
 			} catch (const YAML::Exception& e) {
 				std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 				return 0;
@@ -135,6 +137,7 @@ namespace thunder_ns{
 				std::ofstream fout(out_DYN_file);
 				fout << emitter.c_str();
 				fout.close();
+				if (!fout) return 0;
 			} catch (const YAML::Exception& e) {
 				std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 				return 0;
-- 
2.43.0


From f0d34a4475391302c18a9050ae983a0250cd31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 14/15] fix: robot name is the base name of the configuration
 file whatever its extension

---
 src/thunder/thunder_main.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/thunder/thunder_main.cpp b/src/thunder/thunder_main.cpp
index 8493431..1a5925b 100755
--- a/src/thunder/thunder_main.cpp
+++ b/src/thunder/thunder_main.cpp
@@ -95,18 +95,10 @@ int main(int argc, char* argv[]){
 	COPY_GEN_CHRONO_FLAG = COPY_GEN_FLAG;
 
 	// - check config_file and name - //
-	int index_yaml = config_file.find_last_of(".yaml");
-	// std::cout << "config_file: " << config_file << std::endl;
-	if (index_yaml > 0){
-		int index_path = config_file.find_last_of("/");
-		// std::cout << "index_path: " << index_path << std::endl;
-		if (index_path == std::string::npos){ // no occurrence
-			path_robot = "./";
-			robot_name = config_file.substr(0, index_yaml+1-5); // 5 stands for ".yaml"
-		}else{
-			path_robot = config_file.substr(0, index_path+1);
-			robot_name = config_file.substr(index_path+1, index_yaml-index_path-5); // 5 stands for ".yaml"
-		}
+	std::filesystem::path config_path = config_file;
+	if (config_path.has_filename()){
+		path_robot = config_path.has_parent_path() ? config_path.parent_path().string() + "/" : "./";
+		robot_name = config_path.stem().string(); // file name without extension
 	}else{
 		std::cout << "Invalid config file." << std::endl;
 		return 0;
-- 
2.43.0


From ddff6ad736be97a916b1d8c4da11b8a7183d64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 15/15] fix: loading a configuration leaves robots sharing the
 previous one alone

---
 src/thunder/src/robot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 016b1c3..3fb0a9c 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -28,7 +28,7 @@ namespace thunder_ns{
 	YAML::Node Robot::load_config(std::string config_file){
 		try {
 			// load yaml
-			config_yaml = YAML::LoadFile(config_file);
+			config_yaml.reset(YAML::LoadFile(config_file)); // operator= would also change the robots this one was copied from or to
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while loading YAML: " << e.what() << std::endl;
 			throw;
@@ -38,7 +38,7 @@ namespace thunder_ns{
 	}
 	int Robot::load_config(YAML::Node yaml){
 		// load yaml
-		config_yaml = yaml;
+		config_yaml.reset(YAML::Clone(yaml));
 		if (parse_config()) return 1; else return 0;
 	}
 
-- 
2.43.0

