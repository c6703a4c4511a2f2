// a second translation unit that plots (the header is to be usable in more than one)
#include "src/misc/gp-ios.hpp"

std::string plot_elsewhere(Gnuplot& gp, const Eigen::MatrixXd& m, const std::string& file)
{
    return gp.file1d(m, file);
}
