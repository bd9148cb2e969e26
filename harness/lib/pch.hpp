// system and Boost headers of geneva, precompiled once per check (nothing of /repo in here)
#include <boost/archive/xml_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/basic_archive.hpp>
#include <string>
#include <sstream>
#include <vector>
#include <iostream>
#include <type_traits>
#include <boost/lexical_cast.hpp>
#include <mutex>
#include <cmath>
#include <memory>
#include <functional>
#include <boost/serialization/vector.hpp>
#include <tuple>
#include <boost/utility.hpp>
#include <algorithm>
#include <thread>
#include <cstdlib>
#include <chrono>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/nvp.hpp>
#include <fstream>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/tracking.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/cast.hpp>
#include <limits>
#include <boost/serialization/export.hpp>
#include <boost/algorithm/string.hpp>
#include <filesystem>
#include <boost/serialization/map.hpp>
#include <typeinfo>
#include <random>
#include <map>
#include <iomanip>
#include <atomic>
#include <utility>
#include <array>
#include <ostream>
#include <istream>
#include <deque>
#include <ctime>
#include <boost/logic/tribool.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <stdexcept>
#include <list>
#include <exception>
#include <condition_variable>
#include <cassert>
#include <boost/spirit/include/qi_string.hpp>
#include <boost/spirit/include/qi_operator.hpp>
#include <boost/spirit/include/qi_numeric.hpp>
#include <boost/spirit/include/qi_nonterminal.hpp>
#include <boost/spirit/include/qi_char.hpp>
#include <boost/spirit/include/qi_auxiliary.hpp>
#include <boost/spirit/include/qi_action.hpp>
#include <boost/math/special_functions/next.hpp>
#include <cstdio>
#include <cfloat>
#include <boost/spirit/include/phoenix_operator.hpp>
#include <boost/spirit/include/phoenix_core.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/program_options.hpp>
#include <boost/numeric/conversion/bounds.hpp>
#include <boost/math/constants/constants.hpp>
#include <boost/fusion/include/tuple.hpp>
#include <boost/fusion/include/boost_tuple.hpp>
#include <boost/fusion/include/adapt_struct.hpp>
#include <boost/fusion/adapted/std_tuple.hpp>
#include <boost/exception/diagnostic_information.hpp>
#include <boost/exception/all.hpp>
#include <set>
#include <optional>
#include <csignal>
#include <boost/version.hpp>
#include <boost/uuid/uuid_serialize.hpp>
#include <boost/uuid/uuid_io.hpp>
#include <boost/uuid/uuid_generators.hpp>
#include <boost/uuid/uuid.hpp>
#include <boost/uuid/random_generator.hpp>
#include <boost/tokenizer.hpp>
#include <boost/spirit/include/qi_raw.hpp>
#include <boost/spirit/include/qi_lit.hpp>
#include <boost/spirit/include/qi_hold.hpp>
#include <boost/spirit/include/phoenix_stl.hpp>
#include <boost/serialization/assume_abstract.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <boost/mpl/list.hpp>
#include <boost/math/special_functions.hpp>
#include <boost/fusion/include/io.hpp>
#include <boost/fusion/adapted/boost_tuple.hpp>
#include <boost/config.hpp>
#include <boost/algorithm/string/trim.hpp>
#include <time.h>
#include <stack>
#include <iterator>
#include <future>
#include <climits>
#include <boost/utility/identity_type.hpp>
#include <boost/tuple/tuple.hpp>
#include <boost/spirit/include/phoenix_object.hpp>
#include <boost/spirit/include/phoenix_bind.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/serialization/set.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/deque.hpp>
#include <boost/predef/version_number.h>
#include <boost/predef.h>
#include <boost/optional.hpp>
#include <boost/numeric/conversion/cast.hpp>
#include <boost/logic/tribool_io.hpp>
#include <boost/limits.hpp>
#include <boost/iterator/iterator_facade.hpp>
#include <boost/config/warning_disable.hpp>
#include <boost/checked_delete.hpp>
