// A byte buffer with guard zones and a chosen misalignment.
#pragma once
#include <cstddef>
#include <vector>
struct gbuf
{
    static constexpr size_t G = 512;
    std::vector<unsigned char> raw;
    size_t n, off;
    gbuf(size_t n, size_t shift = 0) : raw(n + 2 * G + 128 + shift, 0x5A), n(n)
    {
        size_t a = (size_t)raw.data() % 64;
        off      = (a ? 64 - a : 0) + G + shift;
    }
    unsigned char* data() { return raw.data() + off; }
    bool check() const
    {
        for (size_t i = 0; i < raw.size(); ++i)
            if ((i < off || i >= off + n) && raw[i] != 0x5A)
                return false;
        return true;
    }
};
