// The type of a file depends on what follows the last dot of its name only.
#include <frnetlib/Http.h>
#include "tokens.h"
#include "mimetypes.h"
static bool has(const std::string &s, char c) { bool r = false; for(char x : s) r |= x == c; return r; }
int main()
{
    unsigned N = sym_param("N", 3);
    sym_check(!fr::Http::get_mimetype("").empty(), "there is a type for a file without a name");   // builds the table
    if(sym_param("TABLE", 0))
    {
        unsigned i = sym_choose(sizeof(known) / sizeof(*known), "which");
        std::string name = sym_string(1, "name");
        sym_check(fr::Http::get_mimetype(name + "." + known[i].e) == known[i].t, "the type of a known extension, whatever the rest of the name is");
        sym_check(fr::Http::get_mimetype(std::string("dir.d/") + name + "." + known[i].e) == known[i].t, "the extension follows the last dot");
        sym_reach("known");
        return 0;
    }
    if(sym_choose(2, "common"))
    {
        static const struct { const char *e, *t; } common[] = {{"html", "text/html"}, {"css", "text/css"}, {"js", "application/javascript"}, {"png", "image/png"}, {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"gif", "image/gif"}, {"pdf", "application/pdf"}, {"txt", "text/plain"},
            {"json", "application/json"}, {"xml", "application/xml"}, {"zip", "application/zip"}, {"mp4", "video/mp4"}, {"svg", "image/svg+xml"}, {"ico", "image/x-icon"}, {"csv", "text/csv"}, {"tar", "application/x-tar"}, {"wav", "audio/x-wav"}, {"webm", "video/webm"}, {"webp", "image/webp"}, {"bmp", "image/bmp"}, {"rss", "application/rss+xml"}, {"atom", "application/atom+xml"}, {"rtf", "application/rtf"}, {"mpeg", "video/mpeg"}, {"bin", "application/octet-stream"}};
        unsigned i = sym_choose(sizeof(common) / sizeof(*common), "which");
        std::string name = sym_string(sym_choose(N + 1, "len"), "name");
        sym_check(fr::Http::get_mimetype(name + "." + common[i].e) == common[i].t, "the type of a common extension, whatever the rest of the name is");
        sym_check(fr::Http::get_mimetype(common[i].e) == common[i].t, "an extension without a dot");
        sym_reach("common");
        return 0;
    }
    std::string ext = sym_string(sym_choose(N + 1, "len"), "extension");
    sym_assume(!has(ext, '.'));
    std::string name = sym_string(sym_choose(3, "len"), "name");
    const std::string &a = fr::Http::get_mimetype(name + "." + ext), &b = fr::Http::get_mimetype("." + ext), &c = fr::Http::get_mimetype(ext);
    sym_observe("type", a.size());
    sym_check(!a.empty() && same_str(a, b) && same_str(b, c), "the same type for the extension of any name, with a dot and without");
    sym_check(a.find('/') != std::string::npos, "a type");
    bool letters = true;
    for(unsigned char ch : ext) letters &= ((ch >= 'a') & (ch <= 'z')) | ((ch >= '0') & (ch <= '9')) | ((ch >= 'A') & (ch <= 'Z')) | among("-_+", ch);
    if(!letters) { sym_check(a == "application/octet-stream", "anything which isn't an extension is a sequence of bytes"); sym_reach("odd"); }
    else sym_reach("extension");
    return 0;
}
