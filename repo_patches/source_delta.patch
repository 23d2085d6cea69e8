From c4fb3a02816c41f68b00fa4a08b89d893b30e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 01/12] fix: report a failed allocation in Serialize() instead
 of returning truncated text

The string stream swallows std::bad_alloc and only sets badbit, so
Serializer::Serialize() returned whatever fitted before the failure.
---
 core/src/serializer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/serializer.cc b/core/src/serializer.cc
index 8b14dc7..87cd2d9 100644
--- a/core/src/serializer.cc
+++ b/core/src/serializer.cc
@@ -7,6 +7,8 @@ namespace prometheus {
 std::string Serializer::Serialize(
     const std::vector<MetricFamily>& metrics) const {
   std::ostringstream ss;
+  // report a failed allocation instead of returning a truncated text
+  ss.exceptions(std::ios_base::badbit);
   Serialize(ss, metrics);
   return ss.str();
 }
-- 
2.43.0


From 25365009fbbc04b15bd72c0e0bbc4d9a3c2f343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 02/12] fix: leave a summary unchanged if an observation runs
 out of memory

Observe() counted the value before it could fail, and a failed merge of a
full buffer left part of it merged and the buffer full: the values were
merged again later and the next observation wrote past the buffer's end.
---
 core/include/prometheus/detail/ckms_quantiles.h |  2 ++
 core/src/detail/ckms_quantiles.cc               | 12 ++++++++++++
 core/src/detail/time_window_quantiles.cc        |  4 ++++
 core/src/summary.cc                             |  2 +-
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/include/prometheus/detail/ckms_quantiles.h b/core/include/prometheus/detail/ckms_quantiles.h
index 771e816..a5ac470 100644
--- a/core/include/prometheus/detail/ckms_quantiles.h
+++ b/core/include/prometheus/detail/ckms_quantiles.h
@@ -35,6 +35,8 @@ class PROMETHEUS_CPP_CORE_EXPORT CKMSQuantiles {
  public:
   explicit CKMSQuantiles(const std::vector<Quantile>& quantiles);
 
+  // Acquires the memory the next insert() needs, which then cannot fail.
+  void prepareInsert();
   void insert(double value);
   double get(double q);
   void reset();
diff --git a/core/src/detail/ckms_quantiles.cc b/core/src/detail/ckms_quantiles.cc
index 7ab6f1f..4bf4abe 100644
--- a/core/src/detail/ckms_quantiles.cc
+++ b/core/src/detail/ckms_quantiles.cc
@@ -20,7 +20,16 @@ CKMSQuantiles::Item::Item(double value, int lower_delta, int delta)
 CKMSQuantiles::CKMSQuantiles(const std::vector<Quantile>& quantiles)
     : quantiles_(quantiles), count_(0), buffer_{}, buffer_count_(0) {}
 
+void CKMSQuantiles::prepareInsert() {
+  if (buffer_count_ + 1 == buffer_.size()) {
+    sample_.reserve(sample_.size() + buffer_.size());
+  }
+}
+
 void CKMSQuantiles::insert(double value) {
+  prepareInsert();
+
+
   buffer_[buffer_count_] = value;
   ++buffer_count_;
 
@@ -90,6 +99,9 @@ bool CKMSQuantiles::insertBatch() {
     return false;
   }
 
+  // the only step that can fail, before anything is changed
+  sample_.reserve(sample_.size() + buffer_count_);
+
   std::sort(buffer_.begin(), buffer_.begin() + buffer_count_);
 
   std::size_t start = 0;
diff --git a/core/src/detail/time_window_quantiles.cc b/core/src/detail/time_window_quantiles.cc
index 57f1e1c..d047344 100644
--- a/core/src/detail/time_window_quantiles.cc
+++ b/core/src/detail/time_window_quantiles.cc
@@ -22,6 +22,10 @@ double TimeWindowQuantiles::get(double q) const {
 
 void TimeWindowQuantiles::insert(double value) {
   rotate();
+  // either all buckets get the value or none of them
+  for (auto& bucket : ckms_quantiles_) {
+    bucket.prepareInsert();
+  }
   for (auto& bucket : ckms_quantiles_) {
     bucket.insert(value);
   }
diff --git a/core/src/summary.cc b/core/src/summary.cc
index 2990214..69c3914 100644
--- a/core/src/summary.cc
+++ b/core/src/summary.cc
@@ -17,9 +17,9 @@ Summary::Summary(Quantiles&& quantiles, const std::chrono::milliseconds max_age,
 void Summary::Observe(const double value) {
   std::lock_guard<std::mutex> lock(mutex_);
 
+  quantile_values_.insert(value);
   count_ += 1;
   sum_ += value;
-  quantile_values_.insert(value);
 }
 
 ClientMetric Summary::Collect() const {
-- 
2.43.0


From c1960b5b05b81de4a23d1751fae0ed94a49628a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 03/12] fix: escape backslashes and line feeds in help texts

A help text with a line feed ended the comment and produced an invalid
exposition, one with a backslash was read back as another text.
---
 core/src/text_serializer.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index 0656b50..3aca4bb 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -47,6 +47,25 @@ void WriteValue(std::ostream& out, const std::string& value) {
   }
 }
 
+// Write a help text; unlike in label values, quotes are not escaped
+void WriteHelp(std::ostream& out, const std::string& help) {
+  for (auto c : help) {
+    switch (c) {
+      case '\n':
+        out << '\\' << 'n';
+        break;
+
+      case '\\':
+        out << '\\' << c;
+        break;
+
+      default:
+        out << c;
+        break;
+    }
+  }
+}
+
 // Write a line header: metric name and labels
 template <typename T = std::string>
 void WriteHead(std::ostream& out, const MetricFamily& family,
@@ -156,7 +175,9 @@ void SerializeHistogram(std::ostream& out, const MetricFamily& family,
 
 void SerializeFamily(std::ostream& out, const MetricFamily& family) {
   if (!family.help.empty()) {
-    out << "# HELP " << family.name << " " << family.help << "\n";
+    out << "# HELP " << family.name << " ";
+    WriteHelp(out, family.help);
+    out << "\n";
   }
   switch (family.type) {
     case MetricType::Counter:
-- 
2.43.0


From 80a3e565d8de7ab7b4e86eb0430147c4d063c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 04/12] fix: make serialised text independent of the stream's
 formatting

Flags like hex, showpos or fixed, and the field width leaked into the text.
Locale and precision stayed changed when writing threw an exception.
---
 core/src/text_serializer.cc | 41 +++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index 3aca4bb..a325e5b 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -220,21 +220,46 @@ void SerializeFamily(std::ostream& out, const MetricFamily& family) {
       break;
   }
 }
+
+// Sets up a stream for the exposition format, whatever its formatting is, and
+// restores that formatting, also if writing to the stream throws.
+class FormatGuard {
+ public:
+  explicit FormatGuard(std::ostream& out)
+      : out_(out),
+        locale_(out.getloc()),
+        flags_(out.flags()),
+        precision_(out.precision()) {
+    out_.imbue(std::locale::classic());
+    out_.flags(std::ios_base::dec | std::ios_base::skipws |
+               (flags_ & std::ios_base::unitbuf));
+    out_.precision(std::numeric_limits<double>::max_digits10 - 1);
+    out_.width(0);
+  }
+
+  ~FormatGuard() {
+    out_.imbue(locale_);
+    out_.flags(flags_);
+    out_.precision(precision_);
+  }
+
+  FormatGuard(const FormatGuard&) = delete;
+  FormatGuard& operator=(const FormatGuard&) = delete;
+
+ private:
+  std::ostream& out_;
+  const std::locale locale_;
+  const std::ios_base::fmtflags flags_;
+  const std::streamsize precision_;
+};
 }  // namespace
 
 void TextSerializer::Serialize(std::ostream& out,
                                const std::vector<MetricFamily>& metrics) const {
-  auto saved_locale = out.getloc();
-  auto saved_precision = out.precision();
-
-  out.imbue(std::locale::classic());
-  out.precision(std::numeric_limits<double>::max_digits10 - 1);
+  FormatGuard guard{out};
 
   for (auto& family : metrics) {
     SerializeFamily(out, family);
   }
-
-  out.imbue(saved_locale);
-  out.precision(saved_precision);
 }
 }  // namespace prometheus
-- 
2.43.0


From 582354841512d7e8d9f1655e06df8d09c9f7db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:52 +0000
Subject: [PATCH 05/12] fix: keep authentication callbacks alive while requests
 are being authorized

Replacing the callback of a URI, and destroying the exposer, destroyed the
handler while a request could still be inside of it.
---
 pull/src/basic_auth.cc | 37 ++++++++++++++++++++++++++++---------
 pull/src/basic_auth.h  | 27 ++++++++++++++++++++++-----
 pull/src/endpoint.cc   | 22 ++++++++++++++++------
 pull/src/endpoint.h    |  5 +++++
 pull/src/exposer.cc    |  9 ++++++++-
 5 files changed, 79 insertions(+), 21 deletions(-)

diff --git a/pull/src/basic_auth.cc b/pull/src/basic_auth.cc
index 1d11906..0bd6094 100644
--- a/pull/src/basic_auth.cc
+++ b/pull/src/basic_auth.cc
@@ -7,18 +7,35 @@
 
 namespace prometheus {
 
-BasicAuthHandler::BasicAuthHandler(AuthFunc callback, std::string realm)
-    : callback_(std::move(callback)), realm_(std::move(realm)) {}
+BasicAuthHandler::BasicAuthHandler(AuthFunc callback, std::string realm) {
+  Replace(std::move(callback), std::move(realm));
+}
+
+void BasicAuthHandler::Replace(AuthFunc callback, std::string realm) {
+  // the previous settings are released after the lock
+  std::shared_ptr<const Settings> settings = std::make_shared<Settings>(
+      Settings{std::move(callback), std::move(realm)});
+  std::lock_guard<std::mutex> lock{mutex_};
+  settings_.swap(settings);
+}
+
+std::shared_ptr<const BasicAuthHandler::Settings>
+BasicAuthHandler::GetSettings() const {
+  std::lock_guard<std::mutex> lock{mutex_};
+  return settings_;
+}
 
-bool BasicAuthHandler::authorize(CivetServer* server, mg_connection* conn) {
-  if (!AuthorizeInner(server, conn)) {
-    WriteUnauthorizedResponse(conn);
+bool BasicAuthHandler::authorize(CivetServer*, mg_connection* conn) {
+  const auto settings = GetSettings();
+  if (!AuthorizeInner(*settings, conn)) {
+    WriteUnauthorizedResponse(*settings, conn);
     return false;
   }
   return true;
 }
 
-bool BasicAuthHandler::AuthorizeInner(CivetServer*, mg_connection* conn) {
+bool BasicAuthHandler::AuthorizeInner(const Settings& settings,
+                                      mg_connection* conn) {
   const char* authHeader = mg_get_header(conn, "Authorization");
 
   if (authHeader == nullptr) {
@@ -59,12 +76,14 @@ bool BasicAuthHandler::AuthorizeInner(CivetServer*, mg_connection* conn) {
   // TODO: bool does not permit a distinction between 401 Unauthorized
   //  and 403 Forbidden. Authentication may succeed, but the user still
   //  not be authorized to perform the request.
-  return callback_(username, password);
+  return settings.callback(username, password);
 }
 
-void BasicAuthHandler::WriteUnauthorizedResponse(mg_connection* conn) {
+void BasicAuthHandler::WriteUnauthorizedResponse(const Settings& settings,
+                                                 mg_connection* conn) {
   mg_printf(conn, "HTTP/1.1 401 Unauthorized\r\n");
-  mg_printf(conn, "WWW-Authenticate: Basic realm=\"%s\"\r\n", realm_.c_str());
+  mg_printf(conn, "WWW-Authenticate: Basic realm=\"%s\"\r\n",
+            settings.realm.c_str());
   mg_printf(conn, "Connection: close\r\n");
   mg_printf(conn, "Content-Length: 0\r\n");
   // end headers
diff --git a/pull/src/basic_auth.h b/pull/src/basic_auth.h
index 3047b95..a136f6e 100644
--- a/pull/src/basic_auth.h
+++ b/pull/src/basic_auth.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <functional>
+#include <memory>
+#include <mutex>
 #include <string>
 
 #include "CivetServer.h"
@@ -27,12 +29,27 @@ class BasicAuthHandler : public CivetAuthHandler {
    */
   bool authorize(CivetServer* server, mg_connection* conn) override;
 
- private:
-  bool AuthorizeInner(CivetServer* server, mg_connection* conn);
-  void WriteUnauthorizedResponse(mg_connection* conn);
+  /**
+   * Replaces callback and realm.
+   *
+   * Requests which are being authorized meanwhile are decided by the previous
+   * callback, which is kept alive until they are done with it.
+   */
+  void Replace(AuthFunc callback, std::string realm);
 
-  AuthFunc callback_;
-  std::string realm_;
+ private:
+  struct Settings {
+    AuthFunc callback;
+    std::string realm;
+  };
+
+  std::shared_ptr<const Settings> GetSettings() const;
+  static bool AuthorizeInner(const Settings& settings, mg_connection* conn);
+  static void WriteUnauthorizedResponse(const Settings& settings,
+                                        mg_connection* conn);
+
+  mutable std::mutex mutex_;
+  std::shared_ptr<const Settings> settings_;
 };
 
 }  // namespace prometheus
diff --git a/pull/src/endpoint.cc b/pull/src/endpoint.cc
index bd98cef..2f28f3d 100644
--- a/pull/src/endpoint.cc
+++ b/pull/src/endpoint.cc
@@ -17,9 +17,16 @@ Endpoint::Endpoint(CivetServer& server, std::string uri)
           detail::make_unique<MetricsHandler>(*endpoint_registry_)) {
   RegisterCollectable(endpoint_registry_);
   server_.addHandler(uri_, metrics_handler_.get());
+  registered_ = true;
 }
 
-Endpoint::~Endpoint() {
+Endpoint::~Endpoint() { Unregister(); }
+
+void Endpoint::Unregister() {
+  if (!registered_) {
+    return;
+  }
+  registered_ = false;
   server_.removeHandler(uri_);
   if (auth_handler_) {
     server_.removeAuthHandler(uri_);
@@ -34,12 +41,15 @@ void Endpoint::RegisterCollectable(
 void Endpoint::RegisterAuth(
     std::function<bool(const std::string&, const std::string&)> authCB,
     const std::string& realm) {
-  // split creating, assigning, and storing to avoid a race-condition when
-  // being called the second time and the handler is replaced
-  auto new_handler =
+  // A handler must not be destroyed while the server may still be using it, so
+  // a second call replaces what the handler does and not the handler itself.
+  if (auth_handler_) {
+    auth_handler_->Replace(std::move(authCB), realm);
+    return;
+  }
+  auth_handler_ =
       detail::make_unique<BasicAuthHandler>(std::move(authCB), realm);
-  server_.addAuthHandler(uri_, new_handler.get());
-  auth_handler_ = std::move(new_handler);
+  server_.addAuthHandler(uri_, auth_handler_.get());
 }
 
 void Endpoint::RemoveCollectable(
diff --git a/pull/src/endpoint.h b/pull/src/endpoint.h
index 81bb48f..0f40721 100644
--- a/pull/src/endpoint.h
+++ b/pull/src/endpoint.h
@@ -29,6 +29,10 @@ class Endpoint {
       const std::string& realm);
   void RemoveCollectable(const std::weak_ptr<Collectable>& collectable);
 
+  // Detaches the endpoint from the server. Requests that are being authorized
+  // may go on using it until the server has been stopped.
+  void Unregister();
+
   const std::string& GetURI() const;
 
  private:
@@ -38,6 +42,7 @@ class Endpoint {
   std::shared_ptr<Registry> endpoint_registry_;
   std::unique_ptr<MetricsHandler> metrics_handler_;
   std::unique_ptr<BasicAuthHandler> auth_handler_;
+  bool registered_ = false;
 };
 
 }  // namespace detail
diff --git a/pull/src/exposer.cc b/pull/src/exposer.cc
index 5ee3ade..2d6692d 100644
--- a/pull/src/exposer.cc
+++ b/pull/src/exposer.cc
@@ -23,7 +23,14 @@ Exposer::Exposer(std::vector<std::string> options,
     : server_(detail::make_unique<CivetServer>(std::move(options), callbacks)) {
 }
 
-Exposer::~Exposer() = default;
+Exposer::~Exposer() {
+  for (auto& endpoint : endpoints_) {
+    endpoint->Unregister();
+  }
+  // The server does not wait for requests which are being authorized when a
+  // handler is removed, so its threads have to end before the endpoints do.
+  server_->close();
+}
 
 void Exposer::RegisterCollectable(const std::weak_ptr<Collectable>& collectable,
                                   const std::string& uri) {
-- 
2.43.0


From 98dbb2a28972cfab7b3112a2ed2d5713cb6c7b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 06/12] fix: reject base64 text with data after its padding

---
 util/include/prometheus/detail/base64.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/include/prometheus/detail/base64.h b/util/include/prometheus/detail/base64.h
index ebd7110..4b27b5a 100644
--- a/util/include/prometheus/detail/base64.h
+++ b/util/include/prometheus/detail/base64.h
@@ -116,6 +116,9 @@ inline std::string base64_decode(const std::string& input) {
             decoded.push_back((temp >> 8) & 0x000000FF);
             return decoded;
           case 2:
+            if (*(it + 1) != kPadCharacter) {
+              throw std::runtime_error("Invalid padding in base64!");
+            }
             decoded.push_back((temp >> 10) & 0x000000FF);
             return decoded;
           default:
-- 
2.43.0


From bd8ca8c60945dbfc05431cb6c77f975f2076a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 07/12] fix: keep label values . and .. in the path of push
 requests

---
 push/src/detail/label_encoder.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/push/src/detail/label_encoder.cc b/push/src/detail/label_encoder.cc
index 75a6fc1..a335980 100644
--- a/push/src/detail/label_encoder.cc
+++ b/push/src/detail/label_encoder.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <ostream>
+#include <string>
 
 #include "prometheus/detail/base64.h"
 
@@ -25,12 +26,18 @@ bool needsEncoding(char c) {
   }
   return true;
 }
+
+// Would this value be removed from the path as in RFC 3986 section 5.2.4?
+bool isDotSegment(const std::string& value) {
+  return value == "." || value == "..";
+}
 }  // namespace
 
 void encodeLabel(std::ostream& os, const Label& label) {
   if (label.second.empty()) {
     os << "/" << label.first << "@base64/=";
-  } else if (std::any_of(label.second.begin(), label.second.end(),
+  } else if (isDotSegment(label.second) ||
+             std::any_of(label.second.begin(), label.second.end(),
                          needsEncoding)) {
     os << "/" << label.first << "@base64/"
        << detail::base64url_encode(label.second);
-- 
2.43.0


From 692e6bc8e28118adf3145a040422963d7c9b615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:15 +0000
Subject: [PATCH 08/12] fix: release curl resources when construction of the
 wrapper fails

---
 push/src/detail/curl_wrapper.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/push/src/detail/curl_wrapper.cc b/push/src/detail/curl_wrapper.cc
index 997c374..10f5f63 100644
--- a/push/src/detail/curl_wrapper.cc
+++ b/push/src/detail/curl_wrapper.cc
@@ -22,13 +22,19 @@ CurlWrapper::CurlWrapper(std::function<void(CURL*)> presetupCurl)
     throw std::runtime_error("Cannot initialize easy curl!");
   }
 
-  if (presetupCurl_) {
-    presetupCurl_(curl_);  
-  }
-
-  optHttpHeader_ = curl_slist_append(nullptr, CONTENT_TYPE);
-  if (!optHttpHeader_) {
-    throw std::runtime_error("Cannot append the header of the content type");
+  try {
+    if (presetupCurl_) {
+      presetupCurl_(curl_);
+    }
+
+    optHttpHeader_ = curl_slist_append(nullptr, CONTENT_TYPE);
+    if (!optHttpHeader_) {
+      throw std::runtime_error("Cannot append the header of the content type");
+    }
+  } catch (...) {
+    curl_easy_cleanup(curl_);
+    curl_global_cleanup();
+    throw;
   }
 }
 
-- 
2.43.0


From 7ce25b99abd5ab29697062b8ab587afb09187385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:50 +0000
Subject: [PATCH 09/12] fix: report failed allocations while building push URLs

---
 push/src/gateway.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/push/src/gateway.cc b/push/src/gateway.cc
index 8504413..9daca99 100644
--- a/push/src/gateway.cc
+++ b/push/src/gateway.cc
@@ -2,6 +2,7 @@
 #include "prometheus/gateway.h"
 
 #include <algorithm>
+#include <ios>
 #include <iterator>
 #include <map>
 #include <memory>
@@ -45,6 +46,7 @@ class SetupAdapter {
 
 std::string concatenate(const std::string& host, const std::string& port) {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   ss << host << ":" << port;
   return ss.str();
 }
@@ -68,6 +70,7 @@ Gateway::Gateway(const std::string& url,
   curlWrapper_ = detail::make_unique<detail::CurlWrapper>(presetupCurl);
 
   std::stringstream jobUriStream;
+  jobUriStream.exceptions(std::ios_base::badbit);
   jobUriStream << url;
   if (!url.empty() && url.back() != '/') {
     jobUriStream << "/";
@@ -77,6 +80,7 @@ Gateway::Gateway(const std::string& url,
   jobUri_ = jobUriStream.str();
 
   std::stringstream labelStream;
+  labelStream.exceptions(std::ios_base::badbit);
   for (auto& label : labels) {
     detail::encodeLabel(labelStream, label);
   }
@@ -95,6 +99,7 @@ Labels Gateway::GetInstanceLabel(std::string hostname) {
 void Gateway::RegisterCollectable(const std::weak_ptr<Collectable>& collectable,
                                   const Labels* labels) {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
 
   if (labels) {
     for (auto& label : *labels) {
@@ -109,6 +114,7 @@ void Gateway::RegisterCollectable(const std::weak_ptr<Collectable>& collectable,
 
 std::string Gateway::getUri(const CollectableEntry& collectable) const {
   std::stringstream uri;
+  uri.exceptions(std::ios_base::badbit);
   uri << jobUri_ << labels_ << collectable.second;
 
   return uri.str();
-- 
2.43.0


From 469297900f114b1f274ba26739ec30cbed39e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 10/12] fix: report curl options that cannot be set for want of
 memory

---
 push/src/detail/curl_wrapper.cc | 16 ++++++++++++----
 push/src/gateway.cc             |  5 ++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/push/src/detail/curl_wrapper.cc b/push/src/detail/curl_wrapper.cc
index 10f5f63..11b51f7 100644
--- a/push/src/detail/curl_wrapper.cc
+++ b/push/src/detail/curl_wrapper.cc
@@ -49,7 +49,11 @@ int CurlWrapper::performHttpRequest(HttpMethod method, const std::string& uri,
   std::lock_guard<std::mutex> l(mutex_);
 
   curl_easy_reset(curl_);
-  curl_easy_setopt(curl_, CURLOPT_URL, uri.c_str());
+  // Setting a string fails if there is no memory for its copy
+  auto curl_error = curl_easy_setopt(curl_, CURLOPT_URL, uri.c_str());
+  if (curl_error != CURLE_OK) {
+    return -curl_error;
+  }
 
   curl_easy_setopt(curl_, CURLOPT_HTTPHEADER, optHttpHeader_);
 
@@ -71,17 +75,21 @@ int CurlWrapper::performHttpRequest(HttpMethod method, const std::string& uri,
 
     case HttpMethod::Put:
       curl_easy_setopt(curl_, CURLOPT_NOBODY, 0L);
-      curl_easy_setopt(curl_, CURLOPT_CUSTOMREQUEST, "PUT");
+      curl_error = curl_easy_setopt(curl_, CURLOPT_CUSTOMREQUEST, "PUT");
       break;
 
     case HttpMethod::Delete:
       curl_easy_setopt(curl_, CURLOPT_HTTPGET, 0L);
       curl_easy_setopt(curl_, CURLOPT_NOBODY, 0L);
-      curl_easy_setopt(curl_, CURLOPT_CUSTOMREQUEST, "DELETE");
+      curl_error = curl_easy_setopt(curl_, CURLOPT_CUSTOMREQUEST, "DELETE");
       break;
   }
 
-  auto curl_error = curl_easy_perform(curl_);
+  if (curl_error != CURLE_OK) {
+    return -curl_error;
+  }
+
+  curl_error = curl_easy_perform(curl_);
 
   long response_code;
   curl_easy_getinfo(curl_, CURLINFO_RESPONSE_CODE, &response_code);
diff --git a/push/src/gateway.cc b/push/src/gateway.cc
index 9daca99..c568ba7 100644
--- a/push/src/gateway.cc
+++ b/push/src/gateway.cc
@@ -8,6 +8,7 @@
 #include <memory>
 #include <mutex>
 #include <sstream>
+#include <stdexcept>
 
 #include "detail/curl_wrapper.h"
 #include "detail/label_encoder.h"
@@ -34,7 +35,9 @@ class SetupAdapter {
   void operator()(CURL* curl) {
     if (!auth_.empty()) {
       curl_easy_setopt(curl, CURLOPT_HTTPAUTH, CURLAUTH_BASIC);
-      curl_easy_setopt(curl, CURLOPT_USERPWD, auth_.c_str());
+      if (curl_easy_setopt(curl, CURLOPT_USERPWD, auth_.c_str()) != CURLE_OK) {
+        throw std::runtime_error("Cannot set curl credentials!");
+      }
     }
     curl_easy_setopt(curl, CURLOPT_TIMEOUT, timeout_);
   }
-- 
2.43.0


From cbb855960e21c6c33ad5a69fcb86361e8baba163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 11/12] fix: answer 500 instead of ending the process when
 collecting throws

Exceptions of collectables, authentication callbacks or failed allocations
left the request handlers into civetweb's C code and ended the process.
---
 pull/src/basic_auth.cc |  9 ++++++++-
 pull/src/handler.cc    | 26 +++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/pull/src/basic_auth.cc b/pull/src/basic_auth.cc
index 0bd6094..d8ce0e4 100644
--- a/pull/src/basic_auth.cc
+++ b/pull/src/basic_auth.cc
@@ -27,7 +27,14 @@ BasicAuthHandler::GetSettings() const {
 
 bool BasicAuthHandler::authorize(CivetServer*, mg_connection* conn) {
   const auto settings = GetSettings();
-  if (!AuthorizeInner(*settings, conn)) {
+  bool authorized = false;
+  try {
+    authorized = AuthorizeInner(*settings, conn);
+  } catch (...) {
+    // No exception may leave a handler, the server which calls it is written in
+    // C. A request which could not be decided about is not authorized.
+  }
+  if (!authorized) {
     WriteUnauthorizedResponse(*settings, conn);
     return false;
   }
diff --git a/pull/src/handler.cc b/pull/src/handler.cc
index 784fd5e..9972fff 100644
--- a/pull/src/handler.cc
+++ b/pull/src/handler.cc
@@ -4,6 +4,8 @@
 #include <chrono>
 #include <cstring>
 #include <iterator>
+#include <memory>
+#include <new>
 #include <string>
 
 #ifdef HAVE_ZLIB
@@ -66,6 +68,7 @@ static std::vector<Byte> GZipCompress(const std::string& input) {
                    memoryLevel, Z_DEFAULT_STRATEGY) != Z_OK) {
     return {};
   }
+  const std::unique_ptr<z_stream, int (*)(z_stream*)> end{&zs, deflateEnd};
 
   zs.next_in = (Bytef*)input.data();
   zs.avail_in = input.size();
@@ -86,8 +89,6 @@ static std::vector<Byte> GZipCompress(const std::string& input) {
     output.resize(zs.total_out);
   } while (ret == Z_OK);
 
-  deflateEnd(&zs);
-
   if (ret != Z_STREAM_END) {
     return {};
   }
@@ -106,7 +107,13 @@ static std::size_t WriteResponse(struct mg_connection* conn,
   auto acceptsGzip = IsEncodingAccepted(conn, "gzip");
 
   if (acceptsGzip) {
-    auto compressed = GZipCompress(body);
+    std::vector<Byte> compressed;
+    try {
+      compressed = GZipCompress(body);
+    } catch (const std::bad_alloc&) {
+      // too little memory to compress, the body itself can still be sent
+      compressed.clear();
+    }
     if (!compressed.empty()) {
       mg_printf(conn,
                 "Content-Encoding: gzip\r\n"
@@ -145,7 +152,8 @@ void MetricsHandler::RemoveCollectable(
                       std::end(collectables_));
 }
 
-bool MetricsHandler::handleGet(CivetServer*, struct mg_connection* conn) {
+// No exception may leave a handler, the server which calls it is written in C.
+bool MetricsHandler::handleGet(CivetServer*, struct mg_connection* conn) try {
   auto start_time_of_request = std::chrono::steady_clock::now();
 
   std::vector<MetricFamily> metrics;
@@ -162,11 +170,19 @@ bool MetricsHandler::handleGet(CivetServer*, struct mg_connection* conn) {
   auto stop_time_of_request = std::chrono::steady_clock::now();
   auto duration = std::chrono::duration_cast<std::chrono::microseconds>(
       stop_time_of_request - start_time_of_request);
-  request_latencies_.Observe(duration.count());
+  try {
+    request_latencies_.Observe(duration.count());
+  } catch (const std::bad_alloc&) {
+    // the scrape has been answered, only its latency could not be recorded
+  }
 
   bytes_transferred_.Increment(bodySize);
   num_scrapes_.Increment();
   return true;
+} catch (...) {
+  // nothing has been sent yet
+  mg_send_http_error(conn, 500, "%s", "Collecting the metrics failed");
+  return true;
 }
 
 void MetricsHandler::CleanupStalePointers(
-- 
2.43.0


From 4cbb21f078a6818173f9882be2c6ff98196a5b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 12/12] fix: do not hang in ~Exposer after a request was
 admitted and then rejected

For a request with a method that no handler serves, such as HEAD or OPTIONS,
the server asks the authentication handler twice.  If it admits the request the
first time and rejects it the second time, for example because the callback is
replaced in between, the server releases its reference to the request handler
twice, and removing that handler then waits for ever.  Stop the server first:
its handlers go away with it.
---
 pull/src/endpoint.cc | 10 +++-------
 pull/src/endpoint.h  |  5 -----
 pull/src/exposer.cc  |  8 +++-----
 3 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/pull/src/endpoint.cc b/pull/src/endpoint.cc
index 2f28f3d..d068453 100644
--- a/pull/src/endpoint.cc
+++ b/pull/src/endpoint.cc
@@ -17,16 +17,12 @@ Endpoint::Endpoint(CivetServer& server, std::string uri)
           detail::make_unique<MetricsHandler>(*endpoint_registry_)) {
   RegisterCollectable(endpoint_registry_);
   server_.addHandler(uri_, metrics_handler_.get());
-  registered_ = true;
 }
 
-Endpoint::~Endpoint() { Unregister(); }
-
-void Endpoint::Unregister() {
-  if (!registered_) {
-    return;
+Endpoint::~Endpoint() {
+  if (server_.getContext() == nullptr) {
+    return;  // stopped, and its handlers are gone with it
   }
-  registered_ = false;
   server_.removeHandler(uri_);
   if (auth_handler_) {
     server_.removeAuthHandler(uri_);
diff --git a/pull/src/endpoint.h b/pull/src/endpoint.h
index 0f40721..81bb48f 100644
--- a/pull/src/endpoint.h
+++ b/pull/src/endpoint.h
@@ -29,10 +29,6 @@ class Endpoint {
       const std::string& realm);
   void RemoveCollectable(const std::weak_ptr<Collectable>& collectable);
 
-  // Detaches the endpoint from the server. Requests that are being authorized
-  // may go on using it until the server has been stopped.
-  void Unregister();
-
   const std::string& GetURI() const;
 
  private:
@@ -42,7 +38,6 @@ class Endpoint {
   std::shared_ptr<Registry> endpoint_registry_;
   std::unique_ptr<MetricsHandler> metrics_handler_;
   std::unique_ptr<BasicAuthHandler> auth_handler_;
-  bool registered_ = false;
 };
 
 }  // namespace detail
diff --git a/pull/src/exposer.cc b/pull/src/exposer.cc
index 2d6692d..c916e98 100644
--- a/pull/src/exposer.cc
+++ b/pull/src/exposer.cc
@@ -24,11 +24,9 @@ Exposer::Exposer(std::vector<std::string> options,
 }
 
 Exposer::~Exposer() {
-  for (auto& endpoint : endpoints_) {
-    endpoint->Unregister();
-  }
-  // The server does not wait for requests which are being authorized when a
-  // handler is removed, so its threads have to end before the endpoints do.
+  // Removing a handler does not wait for requests which are being authorized,
+  // and may wait forever if a request was admitted first and rejected later.
+  // So the server's threads have to end before the endpoints do.
   server_->close();
 }
 
-- 
2.43.0

