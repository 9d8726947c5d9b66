#include "runner.hpp"
void register_pipe();
void register_queue(); void register_pool(); void register_processor(); void register_merkle(); void register_addfile();
void register_all() { register_pipe(); register_queue(); register_pool(); register_processor(); register_merkle(); register_addfile(); }
