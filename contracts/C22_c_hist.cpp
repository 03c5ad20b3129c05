// C22 through the public interface (hhist.hpp)
#include "hhist.hpp"
CT(tail_left, 3, c_tail<left>)
CF(tail_left, 3, c_tail<left>)
CT(tail_right, 3, c_tail<right>)
CF(tail_right, 3, c_tail<right>)
CT(tq_left, 3, c_tq<left>)
CF(tq_left, 3, c_tq<left>)
CT(tq_right, 3, c_tq<right>)
CF(tq_right, 3, c_tq<right>)
CT(wtq_left, 3, c_wtq<left>)
CF(wtq_left, 3, c_wtq<left>)
CT(wtq_right, 3, c_wtq<right>)
CF(wtq_right, 3, c_wtq<right>)
CT(pot_left, 3, c_pot<left>)
CF(pot_left, 3, c_pot<left>)
CT(pot_right, 3, c_pot<right>)
CF(pot_right, 3, c_pot<right>)
CT(wpot_left, 3, c_wpot<left>)
CF(wpot_left, 3, c_wpot<left>)
CT(wpot_right, 3, c_wpot<right>)
CF(wpot_right, 3, c_wpot<right>)
CT(potp_left, 3, c_potp<left>)
CF(potp_left, 3, c_potp<left>)
CT(potp_right, 3, c_potp<right>)
CF(potp_right, 3, c_potp<right>)
CT(wpotp_left, 3, c_wpotp<left>)
CF(wpotp_left, 3, c_wpotp<left>)
CT(wpotp_right, 3, c_wpotp<right>)
CF(wpotp_right, 3, c_wpotp<right>)
