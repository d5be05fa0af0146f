From 3bf26a616364bd54918a6de36c10275686fda7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 01/61] fix: url_decode mishandles lower case hex digits and
 incomplete escapes

---
 src/Http.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index be924c9..295931a 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -165,19 +165,22 @@ namespace fr
 
     std::string Http::url_decode(const std::string &str)
     {
+        auto hex_value = [](char c) -> int
+        {
+            if(c >= '0' && c <= '9') return c - '0';
+            if(c >= 'A' && c <= 'F') return c - 'A' + 10;
+            if(c >= 'a' && c <= 'f') return c - 'a' + 10;
+            return -1;
+        };
+
         std::string result;
         for(size_t a = 0; a < str.size(); a++)
         {
-            if(str[a] == '%' && a < str.size() - 1)
+            //Only decode complete escape sequences, anything else is kept as it is
+            if(str[a] == '%' && str.size() - a > 2 && hex_value(str[a + 1]) >= 0 && hex_value(str[a + 2]) >= 0)
             {
-                int ch1 = str[++a] - 48;
-                int ch2 = str[++a] - 48;
-                if(ch1 > 9) ch1 -= 7;
-                if(ch2 > 9) ch2 -= 7;
-                uint8_t ret = 0;
-                ret |= ch1 << 4;
-                ret |= ch2;
-                result.push_back(ret);
+                result.push_back(static_cast<char>(hex_value(str[a + 1]) << 4 | hex_value(str[a + 2])));
+                a += 2;
             }
             else if(str[a] == '+')
             {
-- 
2.43.0


From 01aea36857b553d1924a6e40e3acfd028c77e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 02/61] fix: Base64::encode reads out of bounds on inputs
 shorter than two bytes

---
 src/Base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index 6ff83ae..f66eb90 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -15,7 +15,7 @@ namespace fr
         size_t a;
 
         //Do as many sets of 3 bytes as we can
-        for(a = 0; a < input.size() - 2; a += 3)
+        for(a = 0; a + 2 < input.size(); a += 3)
         {
             out += base64_table[(input[a] >> 2) & 0x3F]; //Store the first 6 bits of the first byte
             out += base64_table[((input[a] & 0x3) << 4) | (input[a + 1] & 0xF0) >> 4]; //Store the last 2 bits of the first byte combined with the first 4 bits of the second byte
@@ -27,7 +27,7 @@ namespace fr
         if(a < input.size())
         {
             out += base64_table[(input[a] >> 2) & 0x3F]; //Store first 6 bits of the first byte
-            if(a == input.size() - 2) //There's 2 bytes left
+            if(a + 2 == input.size()) //There's 2 bytes left
             {
                 out += base64_table[((input[a] & 0x3) << 4) | (input[a + 1] & 0xF0) >> 4]; //Store last 2 bits of first byte, and first 4 bits of second byte
                 out += base64_table[(input[a + 1] & 0xF) << 2]; //Finally store the last 4 bits of the second byte
-- 
2.43.0


From 4e33fa80dd0728596fa52d58944ca4acf9ae8a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 03/61] fix: URL::parse keeps components of a previously parsed
 URL

---
 include/frnetlib/URL.h | 2 +-
 src/URL.cpp            | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/URL.h b/include/frnetlib/URL.h
index ebae4a7..710011b 100644
--- a/include/frnetlib/URL.h
+++ b/include/frnetlib/URL.h
@@ -218,7 +218,7 @@ namespace fr
         }
 
         //State
-        Scheme scheme;
+        Scheme scheme{Scheme::Unknown};
         std::string host;
         std::string port;
         std::string path;
diff --git a/src/URL.cpp b/src/URL.cpp
index 0642060..a08c714 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -29,6 +29,11 @@ namespace fr
     void URL::parse(const std::string &url)
     {
         scheme = Scheme::Unknown;
+        host.clear();
+        port.clear();
+        path.clear();
+        query.clear();
+        fragment.clear();
         size_t parse_offset = 0;
         size_t pos = 0;
 
-- 
2.43.0


From 5dd6eec7dbcd7d16bf79df03423865e12291a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 04/61] fix: URL doesn't know the ftp scheme, and mixes it up
 with sftp

---
 src/URL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index a08c714..3f29dfd 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -13,7 +13,7 @@ namespace fr
     std::unordered_map<std::string, URL::Scheme> URL::scheme_string_map = {
             {"http",    URL::HTTP},
             {"https",   URL::HTTPS},
-            {"sftp",    URL::FTP},
+            {"ftp",     URL::FTP},
             {"mailto",  URL::MAILTO},
             {"irc",     URL::IRC},
             {"sftp",    URL::SFTP},
@@ -89,7 +89,7 @@ namespace fr
                     port = "21";
                     break;
                 case URL::SFTP:
-                    port = "25";
+                    port = "22";
                     break;
                 default:
                     break;
-- 
2.43.0


From 62db15be3847e7c19ec8e2cd866756c12b05a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 05/61] fix: sending a client WebFrame masks the payload stored
 in the frame

---
 include/frnetlib/WebFrame.h | 2 +-
 src/WebFrame.cpp            | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index 5137b98..e4f2ca8 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -126,7 +126,7 @@ namespace fr
         virtual bool is_client() const = 0;
 
     private:
-        mutable std::string payload;
+        std::string payload;
         Opcode opcode;
         uint8_t final;
         static uint32_t current_mask_key;
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 7abe6c8..d20a2a5 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -68,14 +68,17 @@ namespace fr
             mask_union.mask_key = ++current_mask_key;
             buffer.append((char*)&mask_union.mask_key, sizeof(mask_union.mask_key));
 
-            //Encode the payload using the mask key
+            //Encode the payload using the mask key. The frame itself is left intact, so that it can be sent again.
             for(size_t a = 0; a < payload.size(); ++a)
             {
-                payload[a] = payload[a] ^ mask_union.str_mask_key[a % 4];
+                buffer += static_cast<char>(payload[a] ^ mask_union.str_mask_key[a % 4]);
             }
         }
+        else
+        {
+            buffer.append(payload);
+        }
 
-        buffer.append(payload);
         size_t sent = 0;
         fr::Socket::Status state;
         do
-- 
2.43.0


From 90209a1cb05cee92febef7edf591a5bc953d3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 06/61] fix: WebFrame uses the 64bit length form for a payload
 of 65535 bytes

---
 src/WebFrame.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index d20a2a5..0213c13 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -37,14 +37,14 @@ namespace fr
         if(payload.size() <= 125)
             first_2bytes |= payload.size();
         else
-            first_2bytes |= (payload.size() < std::numeric_limits<uint16_t>::max()) ? 126 : 127;
+            first_2bytes |= (payload.size() <= std::numeric_limits<uint16_t>::max()) ? 126 : 127;
         first_2bytes = htons(first_2bytes);
         buffer.append((char*)&first_2bytes, sizeof(first_2bytes));
 
         //Set additional payload bits if large enough
         if(payload.size() > 125)
         {
-            if(payload.size() < std::numeric_limits<uint16_t>::max()) //16bit length
+            if(payload.size() <= std::numeric_limits<uint16_t>::max()) //16bit length
             {
                 auto len = htons(static_cast<uint16_t>(payload.size()));
                 buffer.append((char*)&len, sizeof(len));
-- 
2.43.0


From 129a8ffa5d314b002325df0a9d1121362a5da60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 07/61] fix: receiving into a used Packet keeps its old data
 and cursor position

---
 include/frnetlib/Packet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 67d1db0..2dc6df8 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -772,8 +772,8 @@ namespace fr
                 return fr::Socket::Status::MaxPacketSizeExceeded;
 
             //Now we've got the length, read the rest of the data in
-            if(packet_length + PACKET_HEADER_LENGTH > buffer.size())
-                buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer_read_index = PACKET_HEADER_LENGTH;
 
             do
             {
-- 
2.43.0


From dda0fc791bf1f5f93d49568e9301461d23673c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 08/61] fix: Packet cursor arithmetic wraps around for extreme
 positions and lengths

---
 include/frnetlib/Packet.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 2dc6df8..11a716e 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -643,8 +643,7 @@ namespace fr
          */
         inline void set_cursor(size_t pos = 0)
         {
-            buffer_read_index = PACKET_HEADER_LENGTH + pos;
-            if(buffer_read_index > buffer.size()) buffer_read_index = buffer.size();
+            buffer_read_index = pos > size() ? buffer.size() : PACKET_HEADER_LENGTH + pos;
         }
 
         /*!
@@ -666,12 +665,12 @@ namespace fr
          */
         inline void seek_cursor(ssize_t pos)
         {
-            ssize_t new_offset = buffer_read_index + pos;
-            if(new_offset < (ssize_t)PACKET_HEADER_LENGTH)
-                new_offset = PACKET_HEADER_LENGTH;
-            if(new_offset > (ssize_t)buffer.size())
-                new_offset = buffer.size();
-            buffer_read_index = static_cast<size_t>(new_offset);
+            if(pos < (ssize_t)PACKET_HEADER_LENGTH - (ssize_t)buffer_read_index)
+                buffer_read_index = PACKET_HEADER_LENGTH;
+            else if(pos > (ssize_t)buffer.size() - (ssize_t)buffer_read_index)
+                buffer_read_index = buffer.size();
+            else
+                buffer_read_index += pos;
         }
 
         /*!
@@ -695,7 +694,7 @@ namespace fr
          */
         inline void assert_bytes_remaining(size_t required_space) const
         {
-            if(buffer_read_index + required_space > buffer.size())
+            if(buffer_read_index > buffer.size() || required_space > buffer.size() - buffer_read_index)
             {
                 throw std::out_of_range("Not enough bytes remaining in packet to extract requested data");
             }
-- 
2.43.0


From 1b5f3e5f0871748817721d867ad71bfe174e9d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:19 +0000
Subject: [PATCH 09/61] fix: Packet::set_buffer leaves the packet invalid if
 there's no room for the header

---
 include/frnetlib/Packet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 11a716e..60d6bf5 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -622,6 +622,9 @@ namespace fr
         inline void set_buffer(std::string &&data)
         {
             buffer = std::move(data);
+            if(buffer.size() < PACKET_HEADER_LENGTH)
+                buffer.resize(PACKET_HEADER_LENGTH);
+            buffer_read_index = PACKET_HEADER_LENGTH;
         }
 
         /*!
-- 
2.43.0


From 0b84a59f24bdc2df57dabf9ce99d57fee2d72481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:19 +0000
Subject: [PATCH 10/61] fix: extracting a vector from a Packet allocates
 whatever length the packet claims

---
 include/frnetlib/Packet.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 60d6bf5..1be81f2 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -135,12 +135,14 @@ namespace fr
 
             //First extract the length
             *this >> length;
-            vec.resize(length);
+            vec.clear();
 
-            //Now take each of the elements out of the packet
-            for(auto &&iter : vec)
+            //Now take each of the elements out of the packet. The length isn't trusted, so grow as they're extracted.
+            for(uint32_t a = 0; a < length; a++)
             {
-                *this >> iter;
+                vec.emplace_back();
+                auto &&elem = vec.back();
+                *this >> elem;
             }
             return *this;
         }
-- 
2.43.0


From 6c09c51accf8637ff3697bed8334f3bcc09d1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:19 +0000
Subject: [PATCH 11/61] fix: extracting a map from a Packet keeps the elements
 which were already in it

---
 include/frnetlib/Packet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 1be81f2..5f148c2 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -175,6 +175,7 @@ namespace fr
 
             //First extract the length
             *this >> length;
+            m.clear();
 
             //Now take each of the elements out of the packet
             for(uint32_t a = 0; a < length; a++)
@@ -215,6 +216,7 @@ namespace fr
 
             //First extract the length
             *this >> length;
+            m.clear();
 
             //Now take each of the elements out of the packet
             for(uint32_t a = 0; a < length; a++)
-- 
2.43.0


From 5fddfd717d20688bdb04e51aad2ef22323935fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 12/61] fix: extracting a bool from a Packet can produce a
 value other than true or false

---
 include/frnetlib/Packet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 5f148c2..37b4dda 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -268,7 +268,7 @@ namespace fr
         {
             assert_bytes_remaining(sizeof(var));
 
-            memcpy(&var, &buffer[buffer_read_index], sizeof(var));
+            var = buffer[buffer_read_index] != 0;
             buffer_read_index += sizeof(var);
             return *this;
         }
-- 
2.43.0


From 402eeb412b34d1ab466cff2369541a1aa809374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 13/61] fix: an invalid chunk size in a HTTP response throws
 out of parse or is truncated

---
 src/HttpResponse.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index cda31b6..d347e06 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -54,17 +54,26 @@ namespace fr
         if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
         {
             //It's chunked, find the length of the chunk in hex!
-            unsigned int chunk_len = 1;
+            size_t chunk_len = 1;
             while(chunk_len > 0 && chunk_offset < body.size())
             {
                 auto length_end = body.find("\r\n", chunk_offset);
                 if(length_end == std::string::npos)
                     return fr::Socket::Status::NotEnoughData;
                 std::string hex_length = body.substr(chunk_offset, length_end - chunk_offset);
-                chunk_len = std::stoul(hex_length, nullptr, 16);
+                if(hex_length.empty() || !isxdigit(static_cast<unsigned char>(hex_length[0])))
+                    return fr::Socket::Status::ParseError;
+                try
+                {
+                    chunk_len = std::stoul(hex_length, nullptr, 16);
+                }
+                catch(const std::exception &)
+                {
+                    return fr::Socket::Status::ParseError;
+                }
 
                 //If the current chunk hasn't fully been received yet then ask for more data
-                if(body.size() - length_end < chunk_len + 4) //+4 because of the \r\n after the hex value and the chunk end
+                if(body.size() - length_end < 4 || body.size() - length_end - 4 < chunk_len) //4 because of the \r\n after the hex value and the chunk end
                     return fr::Socket::Status::NotEnoughData;
 
                 //Now we have the full chunk, erase the padding \r\n
-- 
2.43.0


From 63fe45586ddd0e092db8f62a6841db5087246fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 14/61] fix: data following a chunked HTTP response ends up in
 its body

---
 src/HttpResponse.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index d347e06..6135013 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -82,9 +82,12 @@ namespace fr
                 chunk_offset += chunk_len;
             }
 
-            //If this chunk is 0, we have everything!
+            //If this chunk is 0, we have everything! Cut off anything which follows.
             if(chunk_len == 0)
+            {
+                body.resize(chunk_offset);
                 return fr::Socket::Status::Success;
+            }
             return fr::Socket::Status::NotEnoughData;
         }
 
-- 
2.43.0


From 9cdfbce5ba1539f4b9ad02dbcf39d3d31817dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 15/61] fix: which HTTP header terminator is used depends on
 how the data is split up

---
 src/HttpRequest.cpp  | 5 +++--
 src/HttpResponse.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 696df9c..3ea1694 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -28,9 +28,10 @@ namespace fr
             //Check to see if this request data contains the end of the header
             uint16_t header_end_size = 4;
             auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
+            auto lf_header_end = body.find("\n\n");
+            if(lf_header_end < header_end)
             {
-                header_end = body.find("\n\n");
+                header_end = lf_header_end;
                 header_end_size = 2;
             }
             header_ended = header_end != std::string::npos;
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 6135013..3cf23e0 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -21,9 +21,10 @@ namespace fr
             //Check to see if this request data contains the end of the header
             uint16_t header_end_size = 4;
             auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
+            auto lf_header_end = body.find("\n\n");
+            if(lf_header_end < header_end)
             {
-                header_end = body.find("\n\n");
+                header_end = lf_header_end;
                 header_end_size = 2;
             }
             header_ended = header_end != std::string::npos;
-- 
2.43.0


From 15711506ddbf1c52354304a9f0b9b3f79774a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 16/61] fix: a HTTP header of the maximum size is rejected if
 its terminator arrives in parts

---
 src/HttpRequest.cpp  | 4 ++--
 src/HttpResponse.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 3ea1694..f2d6f82 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -36,8 +36,8 @@ namespace fr
             }
             header_ended = header_end != std::string::npos;
 
-            //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            //Ensure that the header doesn't exceed max length. Up to 3 bytes of the terminator might have been received.
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 3cf23e0..e9d3a1d 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -29,8 +29,8 @@ namespace fr
             }
             header_ended = header_end != std::string::npos;
 
-            //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            //Ensure that the header doesn't exceed max length. Up to 3 bytes of the terminator might have been received.
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
-- 
2.43.0


From fb3ae93980f5c6d59363df1cc9f36f6591271f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 17/61] fix: HTTP requests are accepted if their method only
 begins with a known one

---
 src/HttpRequest.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index f2d6f82..31c7fb6 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -193,7 +193,11 @@ namespace fr
         auto type_end = str.find(' ');
         if(type_end != std::string::npos)
         {
-            return string_to_request_type(str.substr(0, type_end));
+            //string_to_request_type() matches prefixes, but here the whole method is known
+            std::string method = str.substr(0, type_end);
+            Http::RequestType type = string_to_request_type(method);
+            if(request_type_to_string(type) == method)
+                return type;
         }
         return Http::RequestType::Unknown;
     }
-- 
2.43.0


From d69fbcb45247a9912f6f16f4c1c25cf04a2aba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 18/61] fix: the URI of a HTTP request is cut off or invalid if
 HTTP or ? is found outside of its usual place

---
 src/HttpRequest.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 31c7fb6..114d934 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -205,16 +205,15 @@ namespace fr
     void HttpRequest::parse_header_uri(const std::string &str)
     {
         auto uri_begin = str.find('/');
-        auto uri_end = str.find("HTTP");
-        if(uri_begin == std::string::npos || uri_end == std::string::npos)
+        auto uri_end = str.rfind(" HTTP");
+        if(uri_begin == std::string::npos || uri_end == std::string::npos || uri_begin > uri_end)
         {
             throw std::invalid_argument("No URI found in: " + str);
         }
-        --uri_end;
 
         //Parse GET variables
         auto get_begin = str.find('?');
-        if(get_begin != std::string::npos)
+        if(get_begin != std::string::npos && get_begin > uri_begin && get_begin < uri_end)
         {
             auto get_vars = parse_argument_list(str.substr(get_begin, uri_end - get_begin));
             for(auto &c : get_vars)
-- 
2.43.0


From 07820b8eee6cd0ab702653891432ce4fa667668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 19/61] fix: a HTTP parameter without a value is merged into
 the name of the next one

---
 src/Http.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Http.cpp b/src/Http.cpp
index 295931a..27fd6ac 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -212,6 +212,12 @@ namespace fr
             {
                 unsigned long and_pos;
                 and_pos = str.find('&', read_index);
+                if(and_pos < equal_pos)
+                {
+                    //There's no value, so skip it
+                    read_index = and_pos + 1;
+                    continue;
+                }
                 if(and_pos >= str.size())
                 {
                     size_t str_size = str.size();
-- 
2.43.0


From c18d8f516e33b0de5b25a9bc4f3d0cbb7d41e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 20/61] fix: HttpRequest::construct compares a POST iterator
 with the end of the GET variables

---
 src/HttpRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 114d934..39837cb 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -135,7 +135,7 @@ namespace fr
         for(auto iter = post_data.begin(); iter != post_data.end();)
         {
             post_string += iter->first + "=" + iter->second;
-            if(++iter != get_data.end())
+            if(++iter != post_data.end())
                 post_string += "&";
         }
         if(!post_string.empty())
-- 
2.43.0


From c5d5f5f077f8445294be5a7c875d42c5225702db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 21/61] fix: constructed HTTP requests lack a content length
 for POST variables, or have two of them

---
 src/HttpRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 39837cb..1d85c0e 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -148,7 +148,7 @@ namespace fr
             request += "Connection: keep-alive\r\n";
         if(header_data.find("host") == header_data.end())
             request += "Host: " + host + "\r\n";
-        if(!body.empty())
+        if(header_data.find("content-length") == header_data.end() && body.size() + post_string.size() > 0)
             request += "Content-Length: " + std::to_string(body.size() + post_string.size()) + "\r\n";
 
         //Add in space
-- 
2.43.0


From 99486499d13f7f012b090e98d71a6c7aa264989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 22/61] fix: data following a HTTP request ends up in its body

---
 src/HttpRequest.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 1d85c0e..7402b4c 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -63,6 +63,9 @@ namespace fr
         //If we've got the whole request, parse the POST if it exists
         if(body.size() >= content_length)
         {
+            //Cut off any data if it exceeds content length, provided that a content length is specified
+            if(content_length > 0)
+                body.resize(content_length);
             if(request_type == RequestType::Post)
                 parse_post_body();
             return fr::Socket::Status::Success;
-- 
2.43.0


From d1ddc4918bd4820116f8824409bb550fdbe0cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 23/61] fix: strings which aren't part of a HTTP method are
 considered to be partial methods

---
 include/frnetlib/Http.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index a25c294..7bf0566 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -341,10 +341,8 @@ namespace fr
                 int cmp_ret = str.compare(0, type_string.size(), type_string);
                 if(cmp_ret == 0)
                     return static_cast<RequestType>(a);
-                if(str.size() < type_string.size() && cmp_ret < 0)
+                if(str.size() < type_string.size() && type_string.compare(0, str.size(), str) == 0)
                     type = Http::RequestType::Partial;
-                if(type != Http::RequestType::Partial && str.size() < type_string.size() && cmp_ret > 0)
-                    type = Http::RequestType::Unknown;
             }
 
             return type;
-- 
2.43.0


From d2368cfa8642364a46a4243e26a9184d294cc22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 24/61] fix: descriptor 0 is treated as invalid, and -1 as
 valid

---
 include/frnetlib/NetworkEncoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/NetworkEncoding.h b/include/frnetlib/NetworkEncoding.h
index 23ece3f..bcdc300 100644
--- a/include/frnetlib/NetworkEncoding.h
+++ b/include/frnetlib/NetworkEncoding.h
@@ -31,7 +31,7 @@
 #endif
 
 #define closesocket(x) close(x)
-#define INVALID_SOCKET 0
+#define INVALID_SOCKET (-1)
 #define SOCKET_ERROR (-1)
 
 #include <unistd.h>
-- 
2.43.0


From 3dd06e2a26ca9efbd3a66fa5dd15cdf9a118bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 25/61] fix: TcpSocket::connect leaks descriptors, and leaves
 the socket connected if it fails

---
 src/TcpSocket.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index f37abda..a21ef2e 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -118,6 +118,9 @@ namespace fr
 
         memset(&hints, 0, sizeof(addrinfo));
 
+        //Close the previous connection, if any
+        TcpSocket::close_socket();
+
         //Setup connection settings
         hints.ai_family = ai_family;
         hints.ai_socktype = SOCK_STREAM; //TCP
@@ -134,6 +137,9 @@ namespace fr
         addrinfo *c;
         for(c = info; c != nullptr; c = c->ai_next)
         {
+            //Close the descriptor of the previous attempt
+            TcpSocket::close_socket();
+
             //Get the socket for this entry
             socket_descriptor = ::socket(c->ai_family, c->ai_socktype, c->ai_protocol);
             if(socket_descriptor == INVALID_SOCKET)
@@ -183,11 +189,18 @@ namespace fr
         //We're done with this now, cleanup
         freeaddrinfo(info);
         if(c == nullptr)
+        {
+            TcpSocket::close_socket();
             return Socket::Status::NoRouteToHost;
+        }
 
         //Turn back to blocking mode
         if(!set_unix_socket_blocking(socket_descriptor, false, true))
+        {
+            TcpSocket::close_socket();
             return Socket::Status::Error;
+        }
+        is_blocking = true;
 
         //Update state now we've got a valid socket descriptor
         set_remote_address(address + ":" + port);
-- 
2.43.0


From b5a7955b1cc8f5084593d03ee5ae39090069f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 26/61] fix: the documented default connect timeout of -1 makes
 connect fail

---
 src/TcpSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index a21ef2e..64fbf02 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -167,7 +167,7 @@ namespace fr
 
             //Wait for the socket to do something/expire
             timeval tv = {};
-            tv.tv_sec = timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
+            tv.tv_sec = timeout.count() <= 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
             tv.tv_usec = 0;
             fd_set set = {};
             FD_ZERO(&set);
-- 
2.43.0


From 316601114ebafe2e6a811869be50aaf5ba7388fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 27/61] fix: TcpSocket::connect writes out of bounds if the
 descriptor is larger than FD_SETSIZE

---
 src/TcpSocket.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 64fbf02..5a7db1d 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -3,6 +3,10 @@
 //
 
 #include <iostream>
+#include <climits>
+#ifndef _WIN32
+#include <poll.h>
+#endif
 #include <frnetlib/SocketSelector.h>
 #include <frnetlib/TcpSocket.h>
 #define DEFAULT_SOCKET_TIMEOUT 20
@@ -169,10 +173,18 @@ namespace fr
             timeval tv = {};
             tv.tv_sec = timeout.count() <= 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
             tv.tv_usec = 0;
+#ifndef _WIN32
+            //select() can't be used with descriptors which are too large for an fd_set
+            pollfd poll_fd = {};
+            poll_fd.fd = socket_descriptor;
+            poll_fd.events = POLLOUT;
+            ret = poll(&poll_fd, 1, tv.tv_sec > INT_MAX / 1000 ? INT_MAX : static_cast<int>(tv.tv_sec * 1000));
+#else
             fd_set set = {};
             FD_ZERO(&set);
             FD_SET(socket_descriptor, &set);
             ret = select(socket_descriptor + 1, nullptr, &set, nullptr, &tv);
+#endif
             if(ret <= 0)
                 continue;
 
-- 
2.43.0


From f2d6816e7b705fb81a899cbf1a907ae7150b3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 28/61] fix: accepting into a used TcpSocket leaks its
 descriptor and keeps a stale blocking flag

---
 src/TcpSocket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 5a7db1d..1d41fd3 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -109,7 +109,11 @@ namespace fr
             socket_descriptor = -1;
             return;
         }
-        socket_descriptor = *static_cast<int32_t*>(descriptor);
+        int32_t new_descriptor = *static_cast<int32_t*>(descriptor);
+        if(new_descriptor != socket_descriptor)
+            TcpSocket::close_socket();
+        socket_descriptor = new_descriptor;
+        is_blocking = true;
         reconfigure_socket();
     }
 
-- 
2.43.0


From 07243c374f0752d54e7197b7797bc38e8cc55a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 29/61] fix: TcpListener::listen leaks descriptors, and claims
 to be connected if it fails

---
 src/TcpListener.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index fb0226c..e201f67 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -30,6 +30,9 @@ namespace fr
 
         memset(&hints, 0, sizeof(addrinfo));
 
+        //Stop listening on the previous descriptor, if any
+        TcpListener::close_socket();
+
         hints.ai_family = ai_family;
         hints.ai_socktype = SOCK_STREAM; //TCP
         hints.ai_flags = AI_PASSIVE; //Have the IP filled in for us
@@ -53,12 +56,14 @@ namespace fr
             //Set address re-use option if not on Windows (potentially sketchy)
             if(setsockopt(socket_descriptor, SOL_SOCKET, SO_REUSEADDR, (char*)&yes, sizeof(int)) == SOCKET_ERROR)
             {
+                TcpListener::close_socket();
                 continue;
             }
 
             //Set port re-use option
             if(setsockopt(socket_descriptor, SOL_SOCKET, SO_REUSEPORT, (char*)&yes, sizeof(int)) == SOCKET_ERROR)
             {
+                TcpListener::close_socket();
                 continue;
             }
 #endif
@@ -72,7 +77,7 @@ namespace fr
             //Attempt to bind
             if(bind(socket_descriptor, c->ai_addr, c->ai_addrlen) == SOCKET_ERROR)
             {
-                closesocket(socket_descriptor);
+                TcpListener::close_socket();
                 continue;
             }
             break;
@@ -91,6 +96,7 @@ namespace fr
         //Listen to socket
         if(::listen(socket_descriptor, LISTEN_QUEUE_SIZE) == SOCKET_ERROR)
         {
+            TcpListener::close_socket();
             return Socket::Status::ListenFailed;
         }
         return Socket::Status::Success;
-- 
2.43.0


From 3b9850ea6bcc00f27cc9c4ff677e9047ac6a62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 30/61] fix: SocketSelector::remove fails for sockets which
 have been disconnected

---
 src/SocketSelector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index f32dd84..df79f3f 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -83,7 +83,9 @@ namespace fr
             return nullptr;
         }
 
-        if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0)
+        //If it's been disconnected then it's already gone from the EPOLL descriptor, and its descriptor might belong to another socket
+        if(socket->get_socket_descriptor() == iter->second.descriptor
+           && epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0 && errno != ENOENT && errno != EBADF)
         {
             throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
         }
-- 
2.43.0


From b4573ed08e6690050acab09e5f6c8bea10dfa5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 31/61] fix: SSLSocket::send_raw starts over when it's called
 again after WouldBlock

---
 src/SSLSocket.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index faf3890..164b075 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -66,7 +66,6 @@ namespace fr
 
     Socket::Status SSLSocket::send_raw(const char *data, size_t size, size_t &sent)
     {
-        sent = 0;
         ssize_t status = 0;
 
         while(sent < size)
-- 
2.43.0


From 263457e39a7a96da4d5de47baee970ccce994690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 32/61] fix: SSLSocket::receive_raw spins instead of returning
 WouldBlock, and doesn't set received on failure

---
 src/SSLSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 164b075..b083ed4 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -94,6 +94,7 @@ namespace fr
 
     Socket::Status SSLSocket::receive_raw(void *data, size_t data_size, size_t &received)
     {
+        received = 0;
         ssize_t status = 0;
         if(receive_timeout == 0)
         {
@@ -112,7 +113,7 @@ namespace fr
                         {
                             return Socket::Status::Timeout;
                         }
-                        continue;
+                        return Socket::Status::WouldBlock;
                     }
 
                     errno = static_cast<int>(status);
-- 
2.43.0


From eded2edb603fea118847d4bcd71adb9c137b59fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 33/61] fix: SSLSocket::set_blocking always makes the socket
 blocking

---
 src/SSLSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index b083ed4..e451794 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -245,7 +245,7 @@ namespace fr
 
     fr::Socket::Status SSLSocket::set_blocking(bool should_block)
     {
-        int ret = mbedtls_net_set_block(ssl_socket_descriptor.get());
+        int ret = should_block ? mbedtls_net_set_block(ssl_socket_descriptor.get()) : mbedtls_net_set_nonblock(ssl_socket_descriptor.get());
         if(ret != 0)
         {
             errno = ret;
-- 
2.43.0


From e8bb2ce9e2c7c514277456ded5c536f8fcb40d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 34/61] fix: SSLSocket stays connected if the handshake or the
 certificate verification fails

---
 src/SSLSocket.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index e451794..148c3a2 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -159,7 +159,8 @@ namespace fr
 
     Socket::Status SSLSocket::connect(const std::string &address, const std::string &port, std::chrono::seconds timeout)
     {
-        //Initialise mbedtls stuff
+        //Initialise mbedtls stuff, closing the previous connection, if any
+        close_socket();
         ssl.reset(ssl_create());
         ssl_socket_descriptor.reset(net_create());
 
@@ -179,6 +180,7 @@ namespace fr
         int error = 0;
         if((error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_CLIENT, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT)) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
@@ -189,12 +191,14 @@ namespace fr
 
         if((error = mbedtls_ssl_setup(ssl.get(), &conf)) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
 
         if((error = mbedtls_ssl_set_hostname(ssl.get(), address.c_str())) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
@@ -206,6 +210,7 @@ namespace fr
         {
             if(error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE)
             {
+                close_socket();
                 errno = error;
                 return Socket::Status::SSLError;
             }
@@ -216,11 +221,13 @@ namespace fr
         {
             if(mbedtls_ssl_get_verify_result(ssl.get()) != 0)
             {
+                close_socket();
                 return Socket::Status::VerificationFailed;
             }
         }
 
         //Update state
+        is_blocking = true;
         reconfigure_socket();
 
         return Socket::Status::Success;
@@ -234,6 +241,7 @@ namespace fr
     void SSLSocket::set_descriptor(void *descriptor)
     {
         ssl_socket_descriptor.reset(static_cast<mbedtls_net_context*>(descriptor));
+        is_blocking = true;
         if(descriptor)
             reconfigure_socket();
     }
-- 
2.43.0


From 6a776bb3d148cc96a4f9d8145c0f307206fbfc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 35/61] fix: send and receive timeouts aren't applied to an
 SSLSocket

---
 src/SSLSocket.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 148c3a2..5092aa4 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -82,6 +82,12 @@ namespace fr
                     return Socket::Status::WouldBlock;
                 }
 
+                //mbedtls doesn't know about timeouts of blocking sockets
+                if(is_blocking && status == MBEDTLS_ERR_NET_SEND_FAILED && errno == EWOULDBLOCK)
+                {
+                    return Socket::Status::Timeout;
+                }
+
                 errno = status;
                 return Socket::Status::SSLError;
             }
@@ -116,6 +122,12 @@ namespace fr
                         return Socket::Status::WouldBlock;
                     }
 
+                    //mbedtls doesn't know about timeouts of blocking sockets
+                    if(is_blocking && status == MBEDTLS_ERR_NET_RECV_FAILED && errno == EWOULDBLOCK)
+                    {
+                        return Socket::Status::Timeout;
+                    }
+
                     errno = static_cast<int>(status);
                     return Socket::Status::SSLError;
                 }
@@ -275,6 +287,17 @@ namespace fr
 #ifndef _WIN32
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), SOL_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
+
+        //Apply receive timeout
+        struct timeval tv = {};
+        tv.tv_sec = get_receive_timeout() / 1000;
+        tv.tv_usec = (get_receive_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof(tv));
+
+        //Apply send timeout
+        tv.tv_sec = get_send_timeout() / 1000;
+        tv.tv_usec = (get_send_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_SNDTIMEO, (const char*)&tv, sizeof(tv));
 #else
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), IPPROTO_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
-- 
2.43.0


From 2f9269cbb3eb7972562d4d1c8114c112cf49a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 36/61] fix: WebSocket::connect leaves the socket connected if
 the handshake can't be exchanged

---
 include/frnetlib/WebSocket.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 20f8187..dbab1ed 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -59,13 +59,19 @@ namespace fr
 
             status = SocketType::send(request);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
 
             //Receive the response
             HttpResponse response;
             status = SocketType::receive(response);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
             if(response.get_status() != Http::RequestStatus::SwitchingProtocols)
             {
                 disconnect();
-- 
2.43.0


From 6fbe687c577df25b49946158b073950dad20dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 37/61] fix: a WebSocket of a server sends masked disconnect
 frames

---
 include/frnetlib/WebSocket.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index dbab1ed..060ae75 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -36,6 +36,7 @@ namespace fr
         Socket::Status connect(const std::string &address, const std::string &port, const std::string &path,  const std::vector<std::string> &ws_protocols, std::chrono::seconds timeout)
         {
             //Establish a connection using the parent class
+            is_server = false;
             Socket::Status status = SocketType::connect(address, port, timeout);
             if(status != Socket::Status::Success)
                 return status;
@@ -111,7 +112,10 @@ namespace fr
          */
         void disconnect() override
         {
-            ClientWebFrame frame;
+            //Only clients may mask their frames
+            ClientWebFrame client_frame;
+            ServerWebFrame server_frame;
+            WebFrame &frame = is_server ? static_cast<WebFrame&>(server_frame) : static_cast<WebFrame&>(client_frame);
             frame.set_opcode(WebFrame::Opcode::Disconnect);
             if(SocketType::connected())
                 SocketType::send(frame);
@@ -128,6 +132,7 @@ namespace fr
         void set_descriptor(void *descriptor) override
         {
             SocketType::set_descriptor(descriptor);
+            is_server = descriptor != nullptr;
             if(!descriptor || SocketType::get_socket_descriptor() == -1)
                 return;
 
@@ -148,6 +153,9 @@ namespace fr
             response.header("Sec-WebSocket-Accept") = derived_key;
             SocketType::send(response);
         }
+
+    private:
+        bool is_server{false};
     };
 }
 
-- 
2.43.0


From 3b5599e4213747428e89c67e7aa1145dd3948bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 38/61] fix: SSLSocket::connect ignores the IP version set with
 set_inet_version

---
 src/SSLSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 5092aa4..57aa3ae 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -180,6 +180,7 @@ namespace fr
         //Open the descriptor, and then steal it. This is a hack.
         {
             fr::TcpSocket socket;
+            socket.set_inet_version(ai_family == AF_INET ? IP::v4 : ai_family == AF_INET6 ? IP::v6 : IP::any);
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
                 return ret;
-- 
2.43.0


From 072b51b36881298ae095450f161a0bf484015315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:55 +0000
Subject: [PATCH 39/61] fix: data following a HTTP message with a declared
 length of 0 ends up in its body

---
 src/HttpRequest.cpp  | 2 +-
 src/HttpResponse.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 7402b4c..14b7069 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -64,7 +64,7 @@ namespace fr
         if(body.size() >= content_length)
         {
             //Cut off any data if it exceeds content length, provided that a content length is specified
-            if(content_length > 0)
+            if(header_exists("content-length"))
                 body.resize(content_length);
             if(request_type == RequestType::Post)
                 parse_post_body();
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index e9d3a1d..fa1c80c 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -93,7 +93,7 @@ namespace fr
         }
 
         //Cut off any data if it exceeds content length, provided that a content length is specified
-        if(content_length > 0 && body.size() > content_length)
+        if(header_exists("content-length") && body.size() > content_length)
             body.resize(content_length);
         else if(body.size() < content_length)
             return fr::Socket::Status::NotEnoughData;
-- 
2.43.0


From 360d5fde9cf013e08ac5c391c56bf05e69cdece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 40/61] fix: URL::parse takes parts of the path, query and
 fragment for the scheme, host or port, and the other way round

---
 src/URL.cpp | 71 ++++++++++++++++++++---------------------------------
 1 file changed, 26 insertions(+), 45 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 3f29dfd..62724c9 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -39,38 +39,33 @@ namespace fr
 
         //Check to see if a scheme exists
         pos = url.find("://");
-        if(pos != std::string::npos)
+        if(pos != std::string::npos && url.find_first_of("/?#") > pos)
         {
             auto scheme_pos = scheme_string_map.find(to_lower(url.substr(0, pos)));
             scheme = (scheme_pos == scheme_string_map.end()) ? URL::Unknown : scheme_pos->second;
             parse_offset = pos + 3; // skip the ://
         }
 
+        //Find the end of the host and port, a ':' after it belongs to something else
+        size_t host_end = url.find_first_of("/?#", parse_offset);
+        host_end = (host_end == std::string::npos) ? url.size() : host_end;
+
         //Check to see if there's a port
         pos = url.find(':', parse_offset);
-        if(pos != std::string::npos) //A port is provided
+        if(pos < host_end) //A port is provided
         {
             //Store host
             host = url.substr(parse_offset, pos - parse_offset);
-            parse_offset += host.size();
-
-            //Find end of port
-            size_t port_end = url.find('/', parse_offset);
-            port_end = (port_end == std::string::npos) ? url.size() : port_end;
-            port = url.substr(pos + 1, port_end - pos - 1);
-            parse_offset = port_end + 1;
+            port = url.substr(pos + 1, host_end - pos - 1);
+            parse_offset = host_end;
         }
         else //There's no port
         {
             //Store host
-            pos = url.find('/', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('#', parse_offset);
-            if(pos != std::string::npos || parse_offset != 0)
+            if(host_end != url.size() || parse_offset != 0)
             {
-                pos = (pos != std::string::npos) ? pos : url.size();
-                host = url.substr(parse_offset, pos - parse_offset);
-                parse_offset = pos + 1;
+                host = url.substr(parse_offset, host_end - parse_offset);
+                parse_offset = host_end;
             }
 
             //Guess port based on scheme, if it's not explicitly provided.
@@ -96,41 +91,27 @@ namespace fr
             }
         }
 
-        //Exit if done
-        if(parse_offset >= url.size())
-            return;
-
-        //Extract the path
-        pos = url.find('?', parse_offset);
-        if(pos != std::string::npos)
-        {
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
+        //Extract the fragment
+        size_t query_end = url.find('#', parse_offset);
+        if(query_end != std::string::npos)
+            fragment = url.substr(query_end + 1);
         else
-        {
-            pos = url.find('#', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.size();
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
+            query_end = url.size();
 
         //Extract the query
-        pos = url.find('#', parse_offset - 1);
-        if(pos != std::string::npos)
-        {
-            if(pos + 1 != parse_offset)
-                query = url.substr(parse_offset, pos - parse_offset);
-            fragment = url.substr(pos + 1, url.size() - pos - 1);
-        }
+        size_t path_end = url.find('?', parse_offset);
+        if(path_end < query_end)
+            query = url.substr(path_end + 1, query_end - path_end - 1);
         else
+            path_end = query_end;
+
+        //Extract the path
+        if(path_end > parse_offset)
         {
-            if(parse_offset >= url.size())
-                return;
-            query = url.substr(parse_offset, url.size() - parse_offset);
+            path = url.substr(parse_offset, path_end - parse_offset);
+            if(path.front() != '/')
+                path.insert(0, "/");
         }
-
     }
 
     URL::Scheme URL::string_to_scheme(const std::string &scheme)
-- 
2.43.0


From b489185282611033516cf467f445b480faaf5933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 41/61] fix: get_mimetype doesn't know jpeg, jpg, rss and atom
 files

---
 src/Http.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 27fd6ac..5b6912e 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -325,7 +325,7 @@ namespace fr
                 {".s", "text/x-asm"},
                 {".atomcat", "application/atomcat+xml"},
                 {".atomsvc", "application/atomsvc+xml"},
-                {".atom, .xml", "application/atom+xml"},
+                {".atom", "application/atom+xml"},
                 {".ac", "application/pkix-attr-cert"},
                 {".aif", "audio/x-aiff"},
                 {".avi", "video/x-msvideo"},
@@ -546,8 +546,8 @@ namespace fr
                 {".json", "application/json"},
                 {".joda", "application/vnd.joost.joda-archive"},
                 {".jpm", "video/jpm"},
-                {".jpeg, .jpg", "image/jpeg"},
-                {".jpeg, .jpg", "image/x-citrix-jpeg"},
+                {".jpeg", "image/jpeg"},
+                {".jpg", "image/jpeg"},
                 {".pjpeg", "image/pjpeg"},
                 {".jpgv", "video/jpeg"},
                 {".ktz", "application/vnd.kahootz"},
@@ -824,7 +824,7 @@ namespace fr
                 {".rtf", "application/rtf"},
                 {".rtx", "text/richtext"},
                 {".link66", "application/vnd.route66.link66+xml"},
-                {".rss, .xml", "application/rss+xml"},
+                {".rss", "application/rss+xml"},
                 {".shf", "application/shf+xml"},
                 {".st", "application/vnd.sailingtracker.track"},
                 {".svg", "image/svg+xml"},
-- 
2.43.0


From 14f743ef6eea08d0cd51c00a0b7bdd1143a9885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 42/61] fix: request_type_to_string reads out of bounds for
 negative values

---
 include/frnetlib/Http.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index 7bf0566..8f90e3f 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -318,7 +318,7 @@ namespace fr
                                                                                                       "DELETE",
                                                                                                       "PATCH"};
 
-            if(type >= RequestType::RequestTypeCount)
+            if((uint32_t)type >= (uint32_t)RequestType::RequestTypeCount)
                 return "UNKNOWN";
             return request_type_strings[(uint32_t)type];
         }
-- 
2.43.0


From 06cdc93ea020f514b490d56b600e194380aa14d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 43/61] fix: SSLListener leaks its certificate and key if its
 constructor throws, and is unusable if the certificate can't be set

---
 src/SSLListener.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index 51796b0..5d36152 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -26,25 +26,34 @@ namespace fr
 
         int error = 0;
 
+        //The destructor isn't called if the constructor throws
+        const auto fail = [this](const std::string &reason)
+        {
+            mbedtls_x509_crt_free(&srvcert);
+            mbedtls_pk_free(&pkey);
+            mbedtls_ssl_config_free(&conf);
+            throw std::runtime_error(reason);
+        };
+
         //Load public key
         error = mbedtls_x509_crt_parse_file(&srvcert, pem_path.c_str());
         if(error != 0)
         {
-            throw std::runtime_error("Error parsing '" + pem_path + "': mbedtls_x509_crt_parse_file() returned " + std::to_string(error));
+            fail("Error parsing '" + pem_path + "': mbedtls_x509_crt_parse_file() returned " + std::to_string(error));
         }
 
         //Load private key
         error = mbedtls_pk_parse_keyfile(&pkey, private_key_path.c_str(), 0);
         if(error != 0)
         {
-            throw std::runtime_error("Error parsing '" + private_key_path + "': mbedtls_pk_parse_keyfile() returned " + std::to_string(error));
+            fail("Error parsing '" + private_key_path + "': mbedtls_pk_parse_keyfile() returned " + std::to_string(error));
         }
 
         //Setup data structures and apply settings
         error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_SERVER, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
         if(error != 0)
         {
-            throw std::runtime_error("mbedtls_ssl_config_defaults() returned: " + std::to_string(error));
+            fail("mbedtls_ssl_config_defaults() returned: " + std::to_string(error));
         }
         mbedtls_ssl_conf_rng(&conf, mbedtls_ctr_drbg_random, &ssl_context->ctr_drbg);
         mbedtls_ssl_conf_ca_chain(&conf, srvcert.next, nullptr);
@@ -53,8 +62,7 @@ namespace fr
         error = mbedtls_ssl_conf_own_cert(&conf, &srvcert, &pkey);
         if(error != 0)
         {
-            std::cout << "Failed to set certificate: " << error << std::endl;
-            return;
+            fail("Failed to set certificate: mbedtls_ssl_conf_own_cert() returned " + std::to_string(error));
         }
     }
 
-- 
2.43.0


From dbe63ad625f22bd05c02638adce264c3faa1c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 44/61] fix: SSLContext leaks its contexts if its constructor
 throws

---
 include/frnetlib/SSLContext.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/frnetlib/SSLContext.h b/include/frnetlib/SSLContext.h
index cf39e45..64d6a1c 100644
--- a/include/frnetlib/SSLContext.h
+++ b/include/frnetlib/SSLContext.h
@@ -37,6 +37,10 @@ namespace fr
             mbedtls_entropy_init(&entropy);
             if((error = mbedtls_ctr_drbg_seed(&ctr_drbg, mbedtls_entropy_func, &entropy, nullptr, 0)) != 0)
             {
+                //The destructor isn't called if the constructor throws
+                mbedtls_ctr_drbg_free(&ctr_drbg);
+                mbedtls_entropy_free(&entropy);
+                mbedtls_x509_crt_free(&cacert);
                 throw std::runtime_error("Failed to initialise random number generator. Returned error: " + std::to_string(error));
             }
         }
-- 
2.43.0


From a711f6e7d517235f5261a4c1ab815fef43382c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 45/61] fix: load_ca_certs_from_memory never accepts PEM
 certificates

---
 include/frnetlib/SSLContext.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/SSLContext.h b/include/frnetlib/SSLContext.h
index 64d6a1c..6e4534e 100644
--- a/include/frnetlib/SSLContext.h
+++ b/include/frnetlib/SSLContext.h
@@ -61,7 +61,11 @@ namespace fr
          */
         bool load_ca_certs_from_memory(const std::string &ca_certs)
         {
-            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), ca_certs.size()) == 0;
+            //The terminating null byte is part of PEM data, but not of DER data
+            size_t length = ca_certs.size();
+            if(ca_certs.find("-----BEGIN CERTIFICATE-----") != std::string::npos)
+                ++length;
+            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), length) == 0;
         }
 
         /*!
-- 
2.43.0


From dd8e64046318404df6888abbab90834031cbc662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:02 +0000
Subject: [PATCH 46/61] fix: WebSocket clients send a key which isn't 16 random
 bytes, and which servers may refuse

---
 include/frnetlib/WebSocket.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 060ae75..af3e51e 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -5,7 +5,7 @@
 #ifndef FRNETLIB_WEBSOCKET_H
 #define FRNETLIB_WEBSOCKET_H
 
-#include <ctime>
+#include <random>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
 #include "frnetlib/HttpResponse.h"
@@ -42,7 +42,12 @@ namespace fr
                 return status;
 
             //Send an upgrade request header
-            std::string websocket_key = Base64::encode(std::to_string(std::time(nullptr)));
+            //The key is a base64 encoded random value of 16 bytes
+            std::random_device random;
+            std::string websocket_key(16, '\0');
+            for(auto &c : websocket_key)
+                c = static_cast<char>(random());
+            websocket_key = Base64::encode(websocket_key);
             HttpRequest request;
             request.header("sec-websocket-key") = websocket_key;
             request.header("sec-websocket-version") = "13";
-- 
2.43.0


From bfd7c1e2b5e21840bd22d0c7b212e024563be499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:02 +0000
Subject: [PATCH 47/61] fix: WebSocket::connect drops frames which arrive
 together with the server's handshake

---
 include/frnetlib/WebSocket.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index af3e51e..51b6a57 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -71,8 +71,24 @@ namespace fr
             }
 
             //Receive the response
+            //Byte by byte, as the server's first frames may follow straight away
             HttpResponse response;
-            status = SocketType::receive(response);
+            bool started = false;
+            do
+            {
+                char c;
+                size_t received = 0;
+                status = SocketType::receive_raw(&c, 1, received);
+                if(status == Socket::Status::Success)
+                {
+                    started = true;
+                    status = response.parse(&c, received);
+                }
+                else if(started)
+                {
+                    status = status == Socket::Status::WouldBlock ? Socket::Status::NotEnoughData : Socket::Status::Disconnected;
+                }
+            } while(status == Socket::Status::NotEnoughData);
             if(status != Socket::Status::Success)
             {
                 SocketType::close_socket();
-- 
2.43.0


From c041a722ce37697e4521563edaabfd9586fc6e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:02 +0000
Subject: [PATCH 48/61] fix: a WebSocket whose handshake with a client fails
 stays connected

---
 include/frnetlib/WebSocket.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 51b6a57..a478d60 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -157,13 +157,20 @@ namespace fr
             if(!descriptor || SocketType::get_socket_descriptor() == -1)
                 return;
 
+            //A connection without a handshake isn't a WebSocket's
+            const auto fail = [this](const std::string &reason)
+            {
+                SocketType::close_socket();
+                throw std::runtime_error(reason);
+            };
+
             //Initialise connection, receive the handshake
             HttpRequest request;
             if(SocketType::receive(request) != Socket::Status::Success)
-                throw std::runtime_error("Failed to receive WebSock handshake");
+                fail("Failed to receive WebSock handshake");
 
             if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
-                throw std::runtime_error("Client isn't using the WebSock protocol");
+                fail("Client isn't using the WebSock protocol");
 
             //Calculate the derived key, then send back our response
             std::string derived_key = Base64::encode(Sha1::sha1_digest(request.header("sec-websocket-key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"));
@@ -172,7 +179,8 @@ namespace fr
             response.header("Upgrade") = "websocket";
             response.header("Connection") = "Upgrade";
             response.header("Sec-WebSocket-Accept") = derived_key;
-            SocketType::send(response);
+            if(SocketType::send(response) != Socket::Status::Success)
+                fail("Failed to send WebSock handshake");
         }
 
     private:
-- 
2.43.0


From 9174f57dd20a26fd36f697d86ef2f95a23ab5a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:02 +0000
Subject: [PATCH 49/61] fix: WebSocket servers upgrade requests without a key,
 and refuse those which spell websocket in another case

---
 include/frnetlib/WebSocket.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index a478d60..f5d3f83 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -5,6 +5,7 @@
 #ifndef FRNETLIB_WEBSOCKET_H
 #define FRNETLIB_WEBSOCKET_H
 
+#include <algorithm>
 #include <random>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
@@ -169,7 +170,9 @@ namespace fr
             if(SocketType::receive(request) != Socket::Status::Success)
                 fail("Failed to receive WebSock handshake");
 
-            if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
+            std::string upgrade = request.header("Upgrade");
+            std::transform(upgrade.begin(), upgrade.end(), upgrade.begin(), ::tolower);
+            if(upgrade != "websocket" || request.header("sec-websocket-key").empty() || request.get_type() != Http::RequestType::Get)
                 fail("Client isn't using the WebSock protocol");
 
             //Calculate the derived key, then send back our response
-- 
2.43.0


From fb85750b2ce1f92a54a5ac8d348788c5080d3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 50/61] fix: SSLSocket::set_blocking dereferences a null
 pointer while disconnected

---
 src/SSLSocket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 57aa3ae..a0ac1bf 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -266,6 +266,9 @@ namespace fr
 
     fr::Socket::Status SSLSocket::set_blocking(bool should_block)
     {
+        if(!connected())
+            return fr::Socket::Status::Disconnected;
+
         int ret = should_block ? mbedtls_net_set_block(ssl_socket_descriptor.get()) : mbedtls_net_set_nonblock(ssl_socket_descriptor.get());
         if(ret != 0)
         {
-- 
2.43.0


From 71bc484d0ab769c3e490935de3df06ba7391d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 51/61] fix: a listener's failed address lookup is explained by
 an unrelated error

---
 src/TcpListener.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index e201f67..58ecfe2 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -37,8 +37,10 @@ namespace fr
         hints.ai_socktype = SOCK_STREAM; //TCP
         hints.ai_flags = AI_PASSIVE; //Have the IP filled in for us
 
-        if(getaddrinfo(nullptr, port.c_str(), &hints, &info) != 0)
+        int ret = getaddrinfo(nullptr, port.c_str(), &hints, &info);
+        if(ret != 0)
         {
+            errno = ret;
             return Socket::Status::AddressLookupFailure;
         }
 
-- 
2.43.0


From f616597defda6ff4daa66ce9a406e9485e930f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 52/61] fix: SSLListener reports every failure to listen as a
 failed bind

---
 src/SSLListener.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index 5d36152..372a81f 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -82,9 +82,10 @@ namespace fr
         mbedtls_net_init(&listen_fd);
         fr::TcpListener tcp_listen;
         tcp_listen.set_inet_version(ai_family);
-        if(tcp_listen.listen(port) != fr::Socket::Status::Success)
+        auto ret = tcp_listen.listen(port);
+        if(ret != fr::Socket::Status::Success)
         {
-            return Socket::Status::BindFailed;
+            return ret;
         }
 
         listen_fd.fd = tcp_listen.get_socket_descriptor();
-- 
2.43.0


From 506bbac46ba2366cb210a4fbc2e7bdc8d38a7340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 53/61] fix: make the frame mask counter atomic, as threads
 sending frames through separate sockets share it

---
 include/frnetlib/WebFrame.h | 3 ++-
 src/WebFrame.cpp            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index e4f2ca8..a68bd65 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -6,6 +6,7 @@
 #define FRNETLIB_WEBFRAME_H
 
 
+#include <atomic>
 #include <ctime>
 #include "Sendable.h"
 
@@ -129,7 +130,7 @@ namespace fr
         std::string payload;
         Opcode opcode;
         uint8_t final;
-        static uint32_t current_mask_key;
+        static std::atomic<uint32_t> current_mask_key;
     };
 
     class ClientWebFrame : public fr::WebFrame {
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 0213c13..51f37cc 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -7,7 +7,7 @@
 
 namespace fr
 {
-    uint32_t WebFrame::current_mask_key = static_cast<uint32_t>(std::time(nullptr));
+    std::atomic<uint32_t> WebFrame::current_mask_key{static_cast<uint32_t>(std::time(nullptr))};
 
     WebFrame::WebFrame(WebFrame::Opcode type)
     : opcode(type),
-- 
2.43.0


From f55c6da7b0757b897fe9380b2defea62175003eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 54/61] fix: make the table of URL schemes usable while global
 objects are initialised

---
 include/frnetlib/URL.h |  2 +-
 src/URL.cpp            | 21 +++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/frnetlib/URL.h b/include/frnetlib/URL.h
index 710011b..2b412df 100644
--- a/include/frnetlib/URL.h
+++ b/include/frnetlib/URL.h
@@ -224,7 +224,7 @@ namespace fr
         std::string path;
         std::string query;
         std::string fragment;
-        static std::unordered_map<std::string, URL::Scheme> scheme_string_map;
+        static const std::unordered_map<std::string, URL::Scheme> &scheme_string_map();
     };
 }
 
diff --git a/src/URL.cpp b/src/URL.cpp
index 62724c9..59fecf4 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -10,7 +10,10 @@
 namespace fr
 {
 
-    std::unordered_map<std::string, URL::Scheme> URL::scheme_string_map = {
+    const std::unordered_map<std::string, URL::Scheme> &URL::scheme_string_map()
+    {
+        //Local, so that URLs can be used whilst global objects are still being initialised
+        static const std::unordered_map<std::string, URL::Scheme> string_map = {
             {"http",    URL::HTTP},
             {"https",   URL::HTTPS},
             {"ftp",     URL::FTP},
@@ -18,7 +21,9 @@ namespace fr
             {"irc",     URL::IRC},
             {"sftp",    URL::SFTP},
             {"unknown", URL::Unknown}
-    };
+        };
+        return string_map;
+    }
 
     URL::URL(const std::string &url)
     {
@@ -41,8 +46,8 @@ namespace fr
         pos = url.find("://");
         if(pos != std::string::npos && url.find_first_of("/?#") > pos)
         {
-            auto scheme_pos = scheme_string_map.find(to_lower(url.substr(0, pos)));
-            scheme = (scheme_pos == scheme_string_map.end()) ? URL::Unknown : scheme_pos->second;
+            auto scheme_pos = scheme_string_map().find(to_lower(url.substr(0, pos)));
+            scheme = (scheme_pos == scheme_string_map().end()) ? URL::Unknown : scheme_pos->second;
             parse_offset = pos + 3; // skip the ://
         }
 
@@ -116,20 +121,20 @@ namespace fr
 
     URL::Scheme URL::string_to_scheme(const std::string &scheme)
     {
-        auto iter = scheme_string_map.find(to_lower(scheme));
-        if(iter == scheme_string_map.end())
+        auto iter = scheme_string_map().find(to_lower(scheme));
+        if(iter == scheme_string_map().end())
             return URL::Unknown;
         return iter->second;
     }
 
     const std::string &URL::scheme_to_string(URL::Scheme scheme)
     {
-        auto iter = std::find_if(scheme_string_map.begin(), scheme_string_map.end(), [&](const auto &i)
+        auto iter = std::find_if(scheme_string_map().begin(), scheme_string_map().end(), [&](const auto &i)
         {
             return i.second == scheme;
         });
 
-        if(iter == scheme_string_map.end())
+        if(iter == scheme_string_map().end())
             throw std::logic_error("Unknown URL::Scheme value " + std::to_string(scheme));
         return iter->first;
     }
-- 
2.43.0


From c6cb611008a96c27d1ca99c4c65e21da55778cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 55/61] fix: keep the headers of a HTTP message whose value is
 empty

---
 src/Http.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 5b6912e..55433f4 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -249,7 +249,7 @@ namespace fr
         unsigned long data_begin;
         data_begin = str.find_first_not_of(' ', colon_pos + 1);
         if(data_begin == std::string::npos)
-            return;
+            data_begin = str.size(); //The value is empty
 
         size_t data_len = 0;
         for(size_t a = data_begin; a < str.size(); a++)
-- 
2.43.0


From ea77cdb05620a06b135f711b51a85f18e2c6ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 56/61] fix: header values keep tabs and bytes beyond ASCII,
 and lose the whitespace around them

---
 src/Http.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 55433f4..394a2fa 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -247,18 +247,22 @@ namespace fr
             return;
 
         unsigned long data_begin;
-        data_begin = str.find_first_not_of(' ', colon_pos + 1);
+        data_begin = str.find_first_not_of(" \t", colon_pos + 1);
         if(data_begin == std::string::npos)
             data_begin = str.size(); //The value is empty
 
         size_t data_len = 0;
         for(size_t a = data_begin; a < str.size(); a++)
         {
-            if(str[a] >= 32 && str[a] <= 126)
+            if((static_cast<unsigned char>(str[a]) >= 32 && str[a] != 127) || str[a] == '\t')
                 data_len++;
             else
                 break;
         }
+
+        //Whitespace around a value isn't part of it
+        while(data_len > 0 && (str[data_begin + data_len - 1] == ' ' || str[data_begin + data_len - 1] == '\t'))
+            data_len--;
         std::string header_name = str.substr(0, colon_pos);
         std::string header_value = str.substr(data_begin, data_len);
         std::transform(header_name.begin(), header_name.end(), header_name.begin(), ::tolower);
-- 
2.43.0


From 69f2f5353a2e78cb03241fee582b0308d26a3d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 57/61] fix: WebSocket servers upgrade requests which lack the
 Connection, Host or Sec-WebSocket-Version header

---
 include/frnetlib/WebSocket.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index f5d3f83..cb9ec75 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -170,9 +170,9 @@ namespace fr
             if(SocketType::receive(request) != Socket::Status::Success)
                 fail("Failed to receive WebSock handshake");
 
-            std::string upgrade = request.header("Upgrade");
-            std::transform(upgrade.begin(), upgrade.end(), upgrade.begin(), ::tolower);
-            if(upgrade != "websocket" || request.header("sec-websocket-key").empty() || request.get_type() != Http::RequestType::Get)
+            if(!has_value(request.header("upgrade"), "websocket") || !has_value(request.header("connection"), "upgrade") || !request.header_exists("host")
+               || request.header("sec-websocket-key").empty() || request.header("sec-websocket-version") != "13"
+               || request.get_type() != Http::RequestType::Get || request.get_version() == Http::RequestVersion::V1)
                 fail("Client isn't using the WebSock protocol");
 
             //Calculate the derived key, then send back our response
@@ -187,6 +187,25 @@ namespace fr
         }
 
     private:
+        /*!
+         * Checks if the comma separated list in a header has a value in it, in any case.
+         */
+        static bool has_value(const std::string &list, const std::string &value)
+        {
+            for(size_t begin = 0; begin <= list.size();)
+            {
+                const size_t end = std::min(list.find(',', begin), list.size());
+                const size_t first = std::min(list.find_first_not_of(" \t", begin), end);
+                size_t last = end;
+                while(last > first && (list[last - 1] == ' ' || list[last - 1] == '\t'))
+                    last--;
+                if(last - first == value.size() && std::equal(value.begin(), value.end(), list.begin() + first, [](char a, char b){ return a == ::tolower(b); }))
+                    return true;
+                begin = end + 1;
+            }
+            return false;
+        }
+
         bool is_server{false};
     };
 }
-- 
2.43.0


From 0137c819cf9f78234efe16a8d815624068dcf866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 58/61] fix: WebSocket clients accept answers which don't agree
 to what they have offered

---
 include/frnetlib/WebSocket.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index cb9ec75..0d71b38 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -111,6 +111,16 @@ namespace fr
                 return Socket::Status::HandshakeFailed;
             }
 
+            //Verify that it has switched to the WebSocket protocol, and chosen no extension or protocol which wasn't offered
+            std::string protocol = response.header("sec-websocket-protocol");
+            if(!has_value(response.header("upgrade"), "websocket") || !has_value(response.header("connection"), "upgrade") || !response.header("sec-websocket-extensions").empty()
+               || (!protocol.empty() && std::find(ws_protocols.begin(), ws_protocols.end(), protocol) == ws_protocols.end()))
+            {
+                disconnect();
+                errno = EPROTO;
+                return Socket::Status::HandshakeFailed;
+            }
+
             return Socket::Status::Success;
         }
 
-- 
2.43.0


From e3bc7d4687270b84d142128855ad1cad9569ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 59/61] fix: HTTP messages are accepted if their content length
 isn't a number, or is declared twice and differently

---
 include/frnetlib/Http.h |  9 +++++++++
 src/Http.cpp            | 16 ++++++++++++++++
 src/HttpRequest.cpp     |  2 +-
 src/HttpResponse.cpp    |  2 +-
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index 8f90e3f..eb80aa8 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -398,6 +398,15 @@ namespace fr
          */
         void parse_header_line(const std::string &str);
 
+        /*!
+         * Converts the value of a content-length header to a number
+         *
+         * @throws An std::exception if it's not a number, or too large
+         * @param str The value of the header
+         * @return The length
+         */
+        static size_t parse_content_length(const std::string &str);
+
 
 
         //Other request info
diff --git a/src/Http.cpp b/src/Http.cpp
index 394a2fa..0edfef7 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -277,10 +277,26 @@ namespace fr
             }
         }
 
+        //A message which declares different lengths can't be trusted
+        if(header_name == "content-length")
+        {
+            auto iter = header_data.find(header_name);
+            if(iter != header_data.end() && iter->second != header_value)
+                throw std::invalid_argument("Conflicting content lengths: " + iter->second + " and " + header_value);
+        }
+
         //Store header for good
         header_data.emplace(std::move(header_name), std::move(header_value));
     }
 
+    size_t Http::parse_content_length(const std::string &str)
+    {
+        //std::stoull would skip whitespace, accept a sign and ignore what follows the number
+        if(str.empty() || str.find_first_not_of("0123456789") != std::string::npos)
+            throw std::invalid_argument("Invalid content length: " + str);
+        return std::stoull(str);
+    }
+
     const std::string &Http::get_mimetype(const std::string &filename)
     {
         static std::unordered_map<std::string, std::string> known_mimetypes = {
diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 14b7069..754266f 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -98,7 +98,7 @@ namespace fr
             //Store content length value if it exists
             auto length_header_iter = header_data.find("content-length");
             if(length_header_iter != header_data.end())
-                content_length = (size_t)std::stoull(length_header_iter->second);
+                content_length = parse_content_length(length_header_iter->second);
         }
         catch(const std::exception &e)
         {
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index fa1c80c..cec737d 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -162,7 +162,7 @@ namespace fr
             //Store content length value if it exists
             auto length_header_iter = header_data.find("content-length");
             if(length_header_iter != header_data.end())
-                content_length = std::stoull(length_header_iter->second);
+                content_length = parse_content_length(length_header_iter->second);
         }
         catch(const std::exception &e)
         {
-- 
2.43.0


From 739edad3315594ecc299fa9304079027c01a40c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 60/61] fix: malformed chunks are accepted, and trailing
 headers end a chunked HTTP response too early

---
 src/HttpResponse.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index cec737d..9c035cb 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -2,6 +2,7 @@
 // Created by fred on 10/12/16.
 //
 
+#include <algorithm>
 #include <iostream>
 #include "frnetlib/HttpResponse.h"
 
@@ -64,6 +65,11 @@ namespace fr
                 std::string hex_length = body.substr(chunk_offset, length_end - chunk_offset);
                 if(hex_length.empty() || !isxdigit(static_cast<unsigned char>(hex_length[0])))
                     return fr::Socket::Status::ParseError;
+
+                //Nothing but an extension may follow the length
+                auto extension = hex_length.find_first_not_of(" \t", std::min(hex_length.find_first_not_of("0123456789abcdefABCDEF"), hex_length.size()));
+                if(extension != std::string::npos && hex_length[extension] != ';')
+                    return fr::Socket::Status::ParseError;
                 try
                 {
                     chunk_len = std::stoul(hex_length, nullptr, 16);
@@ -77,6 +83,15 @@ namespace fr
                 if(body.size() - length_end < 4 || body.size() - length_end - 4 < chunk_len) //4 because of the \r\n after the hex value and the chunk end
                     return fr::Socket::Status::NotEnoughData;
 
+                //The chunk's data ends here. Behind the last one, there might be trailing headers, which end with an empty line.
+                if(body.compare(length_end + 2 + chunk_len, 2, "\r\n") != 0)
+                {
+                    if(chunk_len > 0)
+                        return fr::Socket::Status::ParseError;
+                    if(body.find("\r\n\r\n", length_end + 2) == std::string::npos)
+                        return fr::Socket::Status::NotEnoughData;
+                }
+
                 //Now we have the full chunk, erase the padding \r\n
                 body.erase(chunk_offset + hex_length.size() + chunk_len + 2, 2); //delete \r\n after chunk
                 body.erase(chunk_offset, hex_length.size() + 2); //delete both hex length and following \r\n
-- 
2.43.0


From ded9e3568ef7cbb339df21a9bbe9feb0edf74ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 61/61] fix: a content length followed by control characters is
 accepted, cut off in front of them

---
 src/Http.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Http.cpp b/src/Http.cpp
index 0edfef7..805635f 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -260,6 +260,9 @@ namespace fr
                 break;
         }
 
+        //The line's carriage return ends the value. Anything else would have been cut off with what follows it.
+        const bool cut_off = str.find_first_not_of('\r', data_begin + data_len) != std::string::npos;
+
         //Whitespace around a value isn't part of it
         while(data_len > 0 && (str[data_begin + data_len - 1] == ' ' || str[data_begin + data_len - 1] == '\t'))
             data_len--;
@@ -280,6 +283,8 @@ namespace fr
         //A message which declares different lengths can't be trusted
         if(header_name == "content-length")
         {
+            if(cut_off)
+                throw std::invalid_argument("Invalid content length: " + str);
             auto iter = header_data.find(header_name);
             if(iter != header_data.end() && iter->second != header_value)
                 throw std::invalid_argument("Conflicting content lengths: " + iter->second + " and " + header_value);
-- 
2.43.0

