#pragma once
#include <string>
#include <functional>
#include <sys/types.h>
namespace qclient {
enum class FilterType { SERVER, CLIENT };
struct TlsConfig {
  bool active = false;
  std::string certificatePath;
  std::string keyPath;
  std::string capath;
  std::string encryptionSpec;
  TlsConfig();
  TlsConfig(bool active);
};
struct RecvStatus {
  bool connectionAlive;
  int errcode;
  int bytesRead;
  RecvStatus();
  RecvStatus(bool alive, int err, int bytes);
};
using RecvFunction = std::function<RecvStatus(char *buff, int len, int timeout)>;
using SendFunction = std::function<int(const char *buff, int len)>;
class TlsFilter {
public:
  TlsFilter(TlsConfig config, const FilterType &filtertype, RecvFunction rc, SendFunction sd);
  ~TlsFilter();
  int send(const char *buff, int blen);
  RecvStatus recv(char *buff, int blen, int timeout);
  int close(int defaultExitCode);
};
}
