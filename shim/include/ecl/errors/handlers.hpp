// Stand-in for ecl_lite's ecl_errors.
#ifndef ECL_ERRORS_HANDLERS_HPP_
#define ECL_ERRORS_HANDLERS_HPP_
namespace ecl {
#define ECL_ERROR_FLAGS(X) X(NoError) X(UnknownError) X(OutOfRangeError) X(ConstructorError) X(DestructorError) \
 X(ConversionError) X(OpenError) X(CloseError) X(ReadError) X(WriteError) X(InvalidInputError) X(InvalidArgError) \
 X(InvalidObjectError) X(ArgNotSupportedError) X(BlockingError) X(BusyError) X(ConfigurationError) X(ConnectionError) \
 X(ConnectionRefusedError) X(InterruptedError) X(IsLockedError) X(MemoryError) X(NotFoundError) X(NotInitialisedError) \
 X(NotSupportedError) X(OutOfResourcesError) X(PermissionsError) X(PosixError) X(RaiiError) X(SystemFailureError) \
 X(TimeOutError) X(UsageError) X(ArgNotFoundError) X(MemoryCorruptionError) X(StandardExceptionError)
#define ECL_ERROR_ENUM(n) n,
enum ErrorFlag { ECL_ERROR_FLAGS(ECL_ERROR_ENUM) NumberOfErrorFlags };
class Error {
public:
  Error(const ErrorFlag& flag = UnknownError) : error_flag(flag) {}
  virtual ~Error() {}
  const ErrorFlag& flag() const { return error_flag; }
  virtual const char* what() const {
#define ECL_ERROR_NAME(n) case n: return #n;
    switch (error_flag) { ECL_ERROR_FLAGS(ECL_ERROR_NAME) default: return "InvalidErrorFlag"; }
  }
protected:
  ErrorFlag error_flag;
};
}
#endif
