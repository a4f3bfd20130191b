#pragma once
#include "exe4cpp/Typedefs.h"
namespace exe4cpp {
class ITimer {
public:
  virtual ~ITimer() = default;
  virtual void cancel() = 0;
  virtual steady_time_t expires_at() = 0;
};
} // namespace exe4cpp
