// C22 through the public interface (hhist.hpp)
#include "hhist.hpp"
CT(psq, 3, c_psq)
CF(psq, 3, c_psq)
CT(wpsq, 3, c_wpsq)
CF(wpsq, 3, c_wpsq)
CT(median, 3, c_med)
CF(median, 3, c_med)
CT(wmedian, 3, c_wmed)
CF(wmedian, 3, c_wmed)
CT(cdf, 3, c_cdf)
CF(cdf, 3, c_cdf)
CT(wcdf, 3, c_wcdf)
CF(wcdf, 3, c_wcdf)
CT(cmedian, 3, c_cmed, false)
CF(cmedian, 3, c_cmed, false)
CT(wcmedian, 3, c_wcmed, false)
CF(wcmedian, 3, c_wcmed, false)
CT(xpsq, 3, c_xpsq)
CF(xpsq, 3, c_xpsq)
CT(wxpsq, 3, c_wxpsq)
CF(wxpsq, 3, c_wxpsq)
CT(xq, 3, c_xq)
CF(xq, 3, c_xq)
CT(xqq, 3, c_xqq)
CF(xqq, 3, c_xqq)
