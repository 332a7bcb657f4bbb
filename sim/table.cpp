#include "core.hpp"
namespace sim
{
    static Prop table[32];
    static int used;
    Reg::Reg(Prop p) { table[used++] = p; }
    const Prop* find_prop(const std::string& id)
    {
        for (int i = 0; i < used; ++i)
            if (id == table[i].id) return &table[i];
        return nullptr;
    }
}
