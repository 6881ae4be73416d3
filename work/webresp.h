// A ResponseIface that keeps the response in memory.
#pragma once
#include "common.h"
#include <map>
#include <web-common/Response.h>

struct Response : ply::web::ResponseIface {
    ply::MemOutStream outs;
    ply::web::ResponseCode code = ply::web::ResponseCode::Unknown;
    ply::u32 begun = 0, ended = 0;
    ply::u64 headerLen = 0;
    std::map<std::string, std::string> fields;
    std::string body;

    ply::OutStream* beginResponseHeader(ply::web::ResponseCode c) override {
        begun++;
        code = c;
        return &outs;
    }
    void endResponseHeader() override {
        ended++;
        headerLen = outs.getSeekPos();
    }
    std::string field(const char* n) const {
        auto it = fields.find(n);
        return it == fields.end() ? "" : it->second;
    }
    void finish(const std::string& what) {
        ply::String all = outs.moveToString();
        sim::Quiet q;
        if (begun != 1 || ended != 1)
            sim::violate("response", "'%s': the handler began %u and ended the header of %u responses", sim::escape(what).c_str(), begun, ended);
        std::string s(all.bytes, all.numBytes), h = s.substr(0, headerLen);
        body = s.substr(headerLen);
        if (h.size() < 2 || h.substr(h.size() - 2) != "\r\n" || (h.size() > 2 && (h.size() < 4 || h.substr(h.size() - 4) != "\r\n\r\n")) || h.find("\r\n\r\n") + 4 < h.size())
            sim::violate("response", "'%s': the header is '%s'", sim::escape(what).c_str(), sim::escape(h).c_str());
        size_t pos = 0;
        while (pos + 2 < h.size()) {
            size_t nl = h.find("\r\n", pos), col = h.find(':', pos);
            if (col == std::string::npos || col > nl)
                sim::violate("response", "'%s': the header is '%s'", sim::escape(what).c_str(), sim::escape(h).c_str());
            std::string k = h.substr(pos, col - pos), v = h.substr(col + 1, nl - col - 1);
            for (char& c : k)
                c = (char) tolower(c);
            while (v.size() && v[0] == ' ')
                v.erase(0, 1);
            fields[k] = v;
            pos = nl + 2;
        }
    }
};
