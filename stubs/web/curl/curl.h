// Model of the part of libcurl the library uses; the transfer itself is driven by the harness.
#ifndef VS_CURL_H
#define VS_CURL_H
#include <cstddef>
#include <cstdio>
#include <cstdlib>
struct VsCurl;
typedef VsCurl CURL;
enum CURLcode { CURLE_OK = 0, CURLE_UNSUPPORTED_PROTOCOL = 1, CURLE_FAILED_INIT = 2, CURLE_COULDNT_RESOLVE_HOST = 6, CURLE_COULDNT_CONNECT = 7, CURLE_PARTIAL_FILE = 18,
  CURLE_HTTP_RETURNED_ERROR = 22, CURLE_WRITE_ERROR = 23, CURLE_OUT_OF_MEMORY = 27, CURLE_OPERATION_TIMEDOUT = 28, CURLE_ABORTED_BY_CALLBACK = 42, CURLE_BAD_FUNCTION_ARGUMENT = 43, CURLE_URL_MALFORMAT = 3, CURLE_READ_ERROR = 26, CURLE_GOT_NOTHING = 52, CURLE_RECV_ERROR = 56, CURLE_FILE_COULDNT_READ_FILE = 37 };
enum CURLoption { CURLOPT_URL = 10002, CURLOPT_WRITEDATA = 10001, CURLOPT_WRITEFUNCTION = 20011, CURLOPT_VERBOSE = 41, CURLOPT_NOPROGRESS = 43, CURLOPT_FAILONERROR = 45,
  CURLOPT_FOLLOWLOCATION = 52, CURLOPT_ERRORBUFFER = 10010, CURLOPT_TIMEOUT = 13, CURLOPT_CONNECTTIMEOUT = 78, CURLOPT_USERAGENT = 10018, CURLOPT_NOSIGNAL = 99,
  CURLOPT_SSL_VERIFYPEER = 64, CURLOPT_SSL_VERIFYHOST = 81, CURLOPT_MAXREDIRS = 68, CURLOPT_LOW_SPEED_LIMIT = 19, CURLOPT_LOW_SPEED_TIME = 20, CURLOPT_HTTPGET = 80, CURLOPT_ACCEPT_ENCODING = 10102,
  CURLOPT_TIMEOUT_MS = 155, CURLOPT_CONNECTTIMEOUT_MS = 156, CURLOPT_BUFFERSIZE = 98, CURLOPT_TCP_KEEPALIVE = 213, CURLOPT_AUTOREFERER = 58, CURLOPT_HEADER = 42 };
enum CURLINFO { CURLINFO_RESPONSE_CODE = 0x200002 };
#define CURL_GLOBAL_ALL 3
#define CURL_GLOBAL_DEFAULT 3
#define CURL_ERROR_SIZE 256
typedef size_t (*vs_wcb)(void *, size_t, size_t, void *);
struct VsCurl { const char *url; vs_wcb cb; void *wd; int failon; int live; };
CURLcode curl_global_init(long);
void curl_global_cleanup();
CURL *curl_easy_init();
void curl_easy_cleanup(CURL *);
CURLcode curl_easy_perform(CURL *);
CURLcode curl_easy_getinfo(CURL *, CURLINFO, long *);
inline const char *curl_easy_strerror(CURLcode) { return "error"; }
inline CURLcode curl_easy_setopt(CURL *h, CURLoption o, const char *v) { if (!h) return CURLE_BAD_FUNCTION_ARGUMENT; if (o == CURLOPT_URL) h->url = v; return CURLE_OK; }
inline CURLcode curl_easy_setopt(CURL *h, CURLoption o, long v) { if (!h) return CURLE_BAD_FUNCTION_ARGUMENT; if (o == CURLOPT_FAILONERROR) h->failon = v != 0; return CURLE_OK; }
inline CURLcode curl_easy_setopt(CURL *h, CURLoption o, int v) { return curl_easy_setopt(h, o, (long)v); }
inline CURLcode curl_easy_setopt(CURL *h, CURLoption o, bool v) { return curl_easy_setopt(h, o, (long)v); }
inline CURLcode curl_easy_setopt(CURL *h, CURLoption o, void *v) { if (!h) return CURLE_BAD_FUNCTION_ARGUMENT; if (o == CURLOPT_WRITEDATA) h->wd = v; return CURLE_OK; }
inline CURLcode curl_easy_setopt(CURL *h, CURLoption o, vs_wcb f) { if (!h) return CURLE_BAD_FUNCTION_ARGUMENT; if (o == CURLOPT_WRITEFUNCTION) h->cb = f; return CURLE_OK; }
inline CURLcode curl_easy_setopt(CURL *h, CURLoption o, decltype(nullptr)) { return curl_easy_setopt(h, o, (void *)0); }
template <class R, class... A> CURLcode curl_easy_setopt(CURL *h, CURLoption o, R (*f)(A...)) { return curl_easy_setopt(h, o, (vs_wcb)f); }
#endif
