#!/usr/bin/perl
# Writes data/ucd15.hpp: inversion lists of the Unicode 15.0 properties, taken from Perl's own copy of
# the Unicode Character Database (not from lexy).
use strict; use warnings;
use Unicode::UCD qw(prop_invlist prop_invmap);
die "need Unicode 15.0" unless Unicode::UCD::UnicodeVersion() =~ /^15\.0/;
print "// generated by tools/gen_ucd.pl from Perl's Unicode ", Unicode::UCD::UnicodeVersion(), "\n#pragma once\n#include <cstdint>\nnamespace ucd {\n";
for my $p (qw(Uppercase Lowercase Alphabetic White_Space XID_Start XID_Continue Join_Control)) {
    my @l = prop_invlist($p);
    print "inline constexpr uint32_t $p\[] = {", join(",", @l), ",0xFFFFFFFF};\n";
}
my ($starts, $vals) = prop_invmap("General_Category");
my %short;
print "inline constexpr struct { uint32_t from; char gc[3]; } Gc[] = {";
for my $i (0 .. $#$starts) {
    my ($v) = Unicode::UCD::prop_value_aliases("gc", $vals->[$i]);
    print "{$starts->[$i],\"$v\"},";
}
print "{0xFFFFFFFF,\"\"}};\n";
my ($s2, $m2, $fmt, $def) = prop_invmap("Simple_Case_Folding");
# format 'a': adjusted ints
print "inline constexpr struct { uint32_t from, to, fold; } Scf[] = {";
for my $i (0 .. $#$s2) {
    next if $m2->[$i] eq $def || $m2->[$i] eq '0' || ref $m2->[$i];
    my $end = $i < $#$s2 ? $s2->[$i+1] - 1 : 0x10FFFF;
    print "{$s2->[$i],$end,$m2->[$i]},";
}
print "{0xFFFFFFFF,0,0}};\n}\n";
