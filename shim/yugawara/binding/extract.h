#pragma once
#include <takatori/descriptor/variable.h>
#include <takatori/util/optional_ptr.h>
namespace yugawara::binding {
template <class T, int K> T const& extract(takatori::descriptor::element<K> const& e) { return *static_cast<T const*>(e.verif_entity().get()); }
template <class T, int K> takatori::util::optional_ptr<T const> extract_if(takatori::descriptor::element<K> const& e) { return takatori::util::optional_ptr<T const>(static_cast<T const*>(e.verif_entity().get())); }
} // namespace yugawara::binding
