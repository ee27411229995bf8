#!/usr/bin/perl
# Writes spec/Unicode.tla: identifier classes of the non-ASCII code points
# assigned in Unicode 9.0 (perl's Unicode tables), except three whose property
# changed in later versions.
use utf8;
my %skip = (0x111c9 => 1, 0x1cf2 => 1, 0x1cf3 => 1);
my %r; my %last;
for my $cp (0x80 .. 0x10ffff) {
  next if $cp >= 0xd800 && $cp <= 0xdfff;
  next if $skip{$cp};
  my $c = chr $cp;
  next unless $c =~ /\p{Present_In=9.0}/;
  my $k;
  if ($c =~ /\p{ID_Start}/) { $k = "IDS" }
  elsif ($c =~ /\p{ID_Continue}/ || $cp == 0x200c || $cp == 0x200d) { $k = "IDC" }
  elsif ($c =~ /\p{Zs}/ || $cp == 0xfeff) { $k = "ZS" }
  elsif ($cp == 0x2028 || $cp == 0x2029) { next }
  else { $k = "OTH" }
  next if $k eq "OTH" && $cp >= 0xe000 && $cp != 0xe000 && $cp <= 0xf8ff;   # one private-use character is enough
  next if $k eq "OTH" && $cp > 0xf0000 && $cp < 0x10fffd;
  if (defined $last{$k} && $last{$k} == $cp - 1) { $r{$k}[-1][1] = $cp } else { push @{$r{$k}}, [$cp, $cp] }
  $last{$k} = $cp;
}
print "------------------------------- MODULE Unicode -------------------------------\n";
print "(* Generated by tools/mkunicode.pl from the Unicode tables: ranges of the     *)\n";
print "(* non-ASCII code points assigned in Unicode 9.0, by lexical class.           *)\n";
for my $k (qw(IDS IDC ZS OTH)) {
  print "${k}Ranges == <<\n  ", join(",", map { "<<$_->[0],$_->[1]>>" } @{$r{$k}}), ">>\n\n";
}
print "=============================================================================\n";
