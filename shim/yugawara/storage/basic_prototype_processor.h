#pragma once
#include <yugawara/storage/prototype_processor.h>
namespace yugawara::storage {
class basic_prototype_processor : public prototype_processor {
public:
    virtual bool ensure(schema::declaration const&, table&, index&, diagnostic_consumer_type const&) { return true; }
    virtual bool ensure(schema::declaration const&, index&, diagnostic_consumer_type const&) { return true; }
};
}
