/* stub: the autotools header is not generated in this build */
#pragma once
