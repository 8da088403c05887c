// Small JSON reader for scenario files.
#pragma once
#include <cctype>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

struct J
{
	enum K { Null, Bool, Num, Str, Arr, Obj } kind{ Null };
	double n{};
	std::string s;
	std::vector< J > a;
	std::map< std::string, J > o;

	bool has( char const * k )const { return kind == Obj && o.count( k ); }
	J const & operator[]( char const * k )const
	{
		static J const nul;
		auto it = o.find( k );
		return it == o.end() ? nul : it->second;
	}
	J const & at( char const * k )const
	{
		auto it = o.find( k );
		if ( it == o.end() )
			throw std::runtime_error( std::string( "scenario: missing key " ) + k );
		return it->second;
	}
	J const & operator[]( size_t i )const { return a.at( i ); }
	J const & operator[]( int i )const { return a.at( size_t( i ) ); }
	size_t size()const { return a.size(); }
	int64_t i( int64_t d = 0 )const { return kind == Num || kind == Bool ? int64_t( n ) : d; }
	uint32_t u( uint32_t d = 0 )const { return kind == Num || kind == Bool ? uint32_t( int64_t( n ) ) : d; }
	double f( double d = 0 )const { return kind == Num ? n : d; }
	bool b( bool d = false )const { return kind == Bool || kind == Num ? n != 0 : d; }
	std::string str( std::string d = {} )const { return kind == Str ? s : d; }
	explicit operator bool()const { return kind != Null; }
};

struct JParser
{
	char const * p;
	char const * e;
	explicit JParser( std::string const & t ) : p{ t.data() }, e{ t.data() + t.size() } {}
	void ws() { while ( p < e && std::isspace( (unsigned char)*p ) ) ++p; }
	[[noreturn]] void fail() { throw std::runtime_error( "scenario: bad json" ); }
	J parse()
	{
		ws();
		if ( p >= e ) fail();
		J r;
		switch ( *p )
		{
		case '{':
			r.kind = J::Obj;
			++p; ws();
			if ( *p == '}' ) { ++p; return r; }
			for (;;)
			{
				ws();
				J k = parse();
				ws();
				if ( *p++ != ':' ) fail();
				r.o[k.s] = parse();
				ws();
				if ( *p == ',' ) { ++p; continue; }
				if ( *p == '}' ) { ++p; return r; }
				fail();
			}
		case '[':
			r.kind = J::Arr;
			++p; ws();
			if ( *p == ']' ) { ++p; return r; }
			for (;;)
			{
				r.a.push_back( parse() );
				ws();
				if ( *p == ',' ) { ++p; continue; }
				if ( *p == ']' ) { ++p; return r; }
				fail();
			}
		case '"':
			r.kind = J::Str;
			++p;
			while ( p < e && *p != '"' )
			{
				if ( *p == '\\' )
				{
					++p;
					r.s += *p == 'n' ? '\n' : *p;
				}
				else
					r.s += *p;
				++p;
			}
			++p;
			return r;
		case 't': p += 4; r.kind = J::Bool; r.n = 1; return r;
		case 'f': p += 5; r.kind = J::Bool; return r;
		case 'n': p += 4; return r;
		default:
		{
			char * q;
			r.kind = J::Num;
			r.n = std::strtod( p, &q );
			if ( q == p ) fail();
			p = q;
			return r;
		}
		}
	}
};
