// Analysis-only declarations of the parts of the qclient library that QuarkDB uses.
// The qclient submodule is not available offline; nothing here is ever linked.
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <future>
#include <chrono>
#include <functional>
#include <map>
#include <set>
#include <thread>
#include <atomic>
#include <list>
#include <deque>
#include <queue>
#include <mutex>
#include <condition_variable>
#include <shared_mutex>
#include <iostream>
#include <sstream>
#include "qclient/Logger.hh"
#include "qclient/TlsFilter.hh"

#define REDIS_REPLY_STRING 1
#define REDIS_REPLY_ARRAY 2
#define REDIS_REPLY_INTEGER 3
#define REDIS_REPLY_NIL 4
#define REDIS_REPLY_STATUS 5
#define REDIS_REPLY_ERROR 6
#define REDIS_REPLY_PUSH 7

struct redisReply {
  int type;
  long long integer;
  size_t len;
  char *str;
  size_t elements;
  struct redisReply **element;
};

namespace qclient {
using redisReplyPtr = std::shared_ptr<redisReply>;
std::string describeRedisReply(const redisReplyPtr &reply);

class Handshake {
public:
  enum class Status { INVALID = 0, VALID_INCOMPLETE, VALID_COMPLETE };
  virtual ~Handshake();
  virtual std::vector<std::string> provideHandshake() = 0;
  virtual Status validateResponse(const redisReplyPtr &reply) = 0;
  virtual void restart() = 0;
  virtual std::unique_ptr<Handshake> clone() const = 0;
};

class SetClientNameHandshake : public Handshake {
public:
  SetClientNameHandshake(const std::string &name, bool ignoreFailures = true);
  std::vector<std::string> provideHandshake() override;
  Status validateResponse(const redisReplyPtr &reply) override;
  void restart() override;
  std::unique_ptr<Handshake> clone() const override;
};

class RetryStrategy {
public:
  static RetryStrategy NoRetries();
  static RetryStrategy InfiniteRetries();
};

class BackpressureStrategy {
public:
  static BackpressureStrategy Default();
  static BackpressureStrategy Infinite();
};

class Options {
public:
  bool transparentRedirects = false;
  RetryStrategy retryStrategy;
  BackpressureStrategy backpressureStrategy;
  TlsConfig tlsconfig;
  std::unique_ptr<Handshake> handshake;
  std::shared_ptr<Logger> logger;
  bool ensureConnectionIsPrimed = false;
  std::chrono::seconds tcpTimeout;
  void chainHandshake(std::unique_ptr<Handshake> handshake);
  void chainHmacHandshake(const std::string &password);
};

class Members;
class QClient {
public:
  QClient(const std::string &host, int port, Options &&opts);
  QClient(const Members &members, Options &&opts);
  ~QClient();
  template<typename C> std::future<redisReplyPtr> execute(const C &req);
  template<typename... Args>
  std::future<redisReplyPtr> exec(const Args&... args) { return execute(std::vector<std::string>{args...}); }
};
}
