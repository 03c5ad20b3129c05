// C22 through the public interface (hhist.hpp)
#include "hhist.hpp"
CT(light, 2, c_light)
CF(light, 2, c_light)
CT(light2, 2, c_light2)
CF(light2, 2, c_light2)
CT(wlight, 2, c_wlight)
CF(wlight, 2, c_wlight)
CT(roll, 3, c_roll)
CF(roll, 3, c_roll)
CT(lroll, 3, c_lroll)
CF(lroll, 3, c_lroll)
CT(density, 3, c_dens)
CF(density, 3, c_dens)
CT(wdensity, 2, c_wdens)
CF(wdensity, 2, c_wdens)
CT(dmedian, 3, c_dmed, false)
CF(dmedian, 3, c_dmed, false)
CT(wdmedian, 2, c_wdmed, false)
CF(wdmedian, 2, c_wdmed, false)
