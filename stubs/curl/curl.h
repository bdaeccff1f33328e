#pragma once
typedef void CURL;
enum CURLcode { CURLE_OK = 0, CURLE_FAILED_INIT = 2 };
enum CURLoption { CURLOPT_CONNECTTIMEOUT, CURLOPT_FOLLOWLOCATION, CURLOPT_TIMEOUT, CURLOPT_URL, CURLOPT_WRITEDATA, CURLOPT_WRITEFUNCTION, CURLOPT_NOSIGNAL, CURLOPT_FAILONERROR, CURLOPT_MAXFILESIZE };
enum CURLINFO { CURLINFO_RESPONSE_CODE };
#define CURL_GLOBAL_DEFAULT 3L
extern "C" {
CURL* curl_easy_init(void);
CURLcode curl_easy_setopt(CURL*, CURLoption, ...);
CURLcode curl_easy_perform(CURL*);
CURLcode curl_easy_getinfo(CURL*, CURLINFO, ...);
void curl_easy_cleanup(CURL*);
const char* curl_easy_strerror(CURLcode);
CURLcode curl_global_init(long);
void curl_global_cleanup(void);
}
