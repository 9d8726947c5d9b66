#include "runner.hpp"
void register_queue();
void register_pool();
void register_processor();
void register_digest();
void register_merkle();
void register_all()
{
    register_queue();
    register_pool();
    register_processor();
    register_digest();
    register_merkle();
}
