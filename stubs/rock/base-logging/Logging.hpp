#ifndef VC_LOGGING_HPP
#define VC_LOGGING_HPP
struct VcNullLog { template<class T> VcNullLog const& operator<<(T const&) const { return *this; } };
#define LOG_DEBUG_S VcNullLog()
#define LOG_INFO_S VcNullLog()
#define LOG_WARN_S VcNullLog()
#define LOG_ERROR_S VcNullLog()
#define LOG_DEBUG(...) do {} while(0)
#define LOG_INFO(...) do {} while(0)
#define LOG_WARN(...) do {} while(0)
#define LOG_ERROR(...) do {} while(0)
#endif
