// dl of the generated class after load_conf, against the configuration the class was generated from
#include <iostream>
#include <cmath>
#include "thunder_rob.h"
int main(int, char** argv){
	thunder_rob r; r.load_conf("rob.yaml");
	Eigen::VectorXd dq(2); dq << 1, 1; r.set_dq(dq);
	Eigen::MatrixXd d = r.get_dl();      // Dl1*dq + Dl2*dq*|dq|: (2+3, 5+7)
	std::cout << "par_Dl: " << r.get_par_Dl().transpose() << "  (the generated function takes the two symbolic entries 3, 7)\n"
	          << "dl: " << d.transpose() << "  expected: 5 12\n";
	return !(std::abs(d(0)-5) < 1e-9 && std::abs(d(1)-12) < 1e-9);
}
