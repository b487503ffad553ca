#!/usr/bin/env python3
"""Writes a copy of PEGTL's parse_tree.hpp whose parse() can be compiled one grammar per translation
unit: SX_TUS units share the instantiations by a hash of their type; the others call through a table."""
import re, sys
src = open('/usr/include/tao/pegtl/contrib/parse_tree.hpp').read()
src = re.sub(r'#include "\.\./([^"]+)"', r'#include <tao/pegtl/\1>', src)
src = re.sub(r'#include "(remove_first_state|shuffle_states)\.hpp"', r'#include <tao/pegtl/contrib/\1.hpp>', src)
i = src.index('[[nodiscard]] std::unique_ptr< Node > parse( ParseInput&& in')
src = src[:i] + src[i:].replace('parse( ParseInput&& in', 'sx_parse_real( ParseInput&& in', 1)
j = src.index('template< typename Rule,\n             template< typename... > class Selector', i)
shim = r'''
   typedef void* ( *sx_parse_fn )( void* );
   struct sx_parse_slot { sx_parse_fn fn; };
   constexpr unsigned long long sx_hash( const char* s )
   {
      unsigned long long h = 1469598103934665603ull;
      for( ; *s; ++s ) h = ( h ^ (unsigned char)*s ) * 1099511628211ull;
      return h ^ ( h >> 29 );
   }
   constexpr bool sx_has( const char* s, const char* t )
   {
      for( ; *s; ++s ) {
         int i = 0;
         while( t[ i ] && s[ i ] == t[ i ] ) ++i;
         if( !t[ i ] ) return true;
      }
      return false;
   }
   template< typename Rule, typename Node, template< typename... > class Selector, template< typename... > class Action, template< typename... > class Control >
   constexpr unsigned long long sx_key() { return sx_hash( __PRETTY_FUNCTION__ ); }
   template< typename Rule, typename Node, template< typename... > class Selector, template< typename... > class Action, template< typename... > class Control >
   constexpr unsigned sx_class()
   {
      constexpr const char* s = __PRETTY_FUNCTION__;
      return sx_has( s, "peg::executable_document" ) ? 0 : sx_has( s, "peg::schema_document" ) ? 2 : sx_has( s, "peg::mixed_document" ) ? ( sx_has( s, "executable_selector" ) ? 1 : 3 ) : 4;
   }
}
extern "C" void sx_parse_register( unsigned long long key, void* ( *fn )( void* ) );
extern "C" void* ( *sx_parse_lookup( unsigned long long key ) )( void* );
namespace TAO_PEGTL_NAMESPACE::parse_tree {
   template< typename Rule, typename Node, template< typename... > class Selector, template< typename... > class Action, template< typename... > class Control >
   struct sx_registrar {
      static void* run( void* in ) { return sx_parse_real< Rule, Node, Selector, Action, Control >( *static_cast< memory_input<>* >( in ) ).release(); }
      struct reg { reg() { sx_parse_register( sx_key< Rule, Node, Selector, Action, Control >(), &run ); } };
      static reg r;
   };
   template< typename Rule, typename Node, template< typename... > class Selector, template< typename... > class Action, template< typename... > class Control >
   typename sx_registrar< Rule, Node, Selector, Action, Control >::reg sx_registrar< Rule, Node, Selector, Action, Control >::r;
   template< typename Rule,
             typename Node,
             template< typename... > class Selector = internal::store_all,
             template< typename... > class Action = nothing,
             template< typename... > class Control = normal,
             typename ParseInput >
   [[nodiscard]] std::unique_ptr< Node > parse( ParseInput&& in )
   {
      memory_input<>& m = in;
      constexpr auto key = sx_key< Rule, Node, Selector, Action, Control >();
      if constexpr( SX_TUMASK >> sx_class< Rule, Node, Selector, Action, Control >() & 1 ) {
         (void)&sx_registrar< Rule, Node, Selector, Action, Control >::r;
         return std::unique_ptr< Node >( static_cast< Node* >( sx_registrar< Rule, Node, Selector, Action, Control >::run( &m ) ) );
      } else {
         return std::unique_ptr< Node >( static_cast< Node* >( sx_parse_lookup( key )( &m ) ) );
      }
   }

'''
src = src[:j].rstrip() + '\n' + shim + '}\n#endif\n'
# steps of a parse: rule attempts that keep a node
assert 'stack.emplace_back( std::make_unique< Node >() );' in src
src = src.replace('stack.emplace_back( std::make_unique< Node >() );', '++sx_parse_steps; stack.emplace_back( std::make_unique< Node >() );')
src = src.replace('#include <vector>\n', '#include <vector>\n#ifndef SX_TUMASK\n#define SX_TUMASK 0x10\n#endif\nextern "C" unsigned long sx_parse_steps;\n', 1)
open(sys.argv[1], 'w').write(src)
# pegtl.hpp that finds its parts through the include path, so a shimmed file_input.hpp is seen
import os
top = re.sub(r'#include "pegtl/([^"]+)"', r'#include <tao/pegtl/\1>', open('/usr/include/tao/pegtl.hpp').read())
open(os.path.join(os.path.dirname(sys.argv[1]), '../../pegtl.hpp'), 'w').write(top)
