#pragma once
#include "src/lang/happyml_script_init.hpp"
#include "src/util/task_utils.hpp"
#include "vcommon.hpp"
namespace v {
    // the bit pattern of a float as two 16-bit words (TLC integers are 32-bit signed)
    inline std::string bits(float f) {
        uint32_t u;
        memcpy(&u, &f, 4);
        if ((u & 0x7fffffffu) == 0) u = 0; // -0 and 0 are the same number
        return std::to_string(u >> 16) + "," + std::to_string(u & 0xffff);
    }
    inline float fromBits(const std::string &hex) {
        uint32_t u = (uint32_t) strtoul(hex.c_str(), nullptr, 16);
        float f;
        memcpy(&f, &u, 4);
        return f;
    }
    inline std::string tensorBits(const std::shared_ptr<happyml::BaseTensor> &t) {
        std::string r = "[" + std::to_string(t->rowCount()) + "," + std::to_string(t->columnCount()) + "," + std::to_string(t->channelCount());
        for (size_t c = 0; c < t->channelCount(); c++)
            for (size_t i = 0; i < t->rowCount(); i++)
                for (size_t j = 0; j < t->columnCount(); j++) r += "," + bits(t->getValue(i, j, c));
        return r + "]";
    }
    inline std::string tensorsBits(const std::vector<std::shared_ptr<happyml::BaseTensor>> &ts) {
        std::vector<std::string> r;
        for (auto &t: ts) r.push_back(tensorBits(t));
        return arr(r);
    }
    // elements scaled to integers, channel-major then row-major
    inline std::string tensorInts(const std::shared_ptr<happyml::BaseTensor> &t, double scale = 1.0) {
        std::string r = "[";
        bool first = true;
        for (size_t c = 0; c < t->channelCount(); c++)
            for (size_t i = 0; i < t->rowCount(); i++)
                for (size_t j = 0; j < t->columnCount(); j++) {
                    if (!first) r += ",";
                    first = false;
                    r += std::to_string(scaled(t->getValue(i, j, c), scale));
                }
        return r + "]";
    }
    inline std::string shape(const std::shared_ptr<happyml::BaseTensor> &t) {
        return "[" + std::to_string(t->rowCount()) + "," + std::to_string(t->columnCount()) + "," + std::to_string(t->channelCount()) + "]";
    }
}
