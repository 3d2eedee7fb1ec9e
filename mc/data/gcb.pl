# Generates gcb.hpp from perl's Unicode database (5.38: Unicode 15.0).  Code points assigned after Unicode 13 are NEW.
use utf8;
my %id=(Other=>0,CR=>1,LF=>2,CN=>3,EX=>4,ZWJ=>5,RI=>6,PP=>7,SM=>8,L=>9,V=>10,T=>11,LV=>12,LVT=>13,XP=>14,NEW=>15);
sub cls { my $c=shift; my $ch=chr($c); no warnings;
  return 'NEW' if $ch=~/\p{Age=14.0}|\p{Age=15.0}/;
  return 'EX' if $c==0x1734;                 # Extend in Unicode 13, SpacingMark since 14
  return 'XP' if $ch=~/\p{ExtPict}/;
  return 'CR' if $c==13; return 'LF' if $c==10;
  return 'CN' if $ch=~/\p{GCB=CN}/; return 'EX' if $ch=~/\p{GCB=EX}/; return 'ZWJ' if $ch=~/\p{GCB=ZWJ}/;
  return 'RI' if $ch=~/\p{GCB=RI}/; return 'PP' if $ch=~/\p{GCB=PP}/; return 'SM' if $ch=~/\p{GCB=SM}/;
  return 'L' if $ch=~/\p{GCB=L}/; return 'V' if $ch=~/\p{GCB=V}/; return 'T' if $ch=~/\p{GCB=T}/;
  return 'LV' if $ch=~/\p{GCB=LV}/; return 'LVT' if $ch=~/\p{GCB=LVT}/; return 'Other'; }
print "// generated by gcb.pl: Grapheme_Cluster_Break, with Extended_Pictographic (XP); absent ranges are Other\n";
print "#ifndef GCB_HPP\n#define GCB_HPP\nenum Gcb : unsigned char { G_Other, G_CR, G_LF, G_CN, G_EX, G_ZWJ, G_RI, G_PP, G_SM, G_L, G_V, G_T, G_LV, G_LVT, G_XP, G_NEW };\n";
print "struct GcbRange { unsigned a, b; unsigned char c; };\nstatic const GcbRange gcb_ranges[] = {\n";
my ($s,$prev)=(0,undef); my $n=0;
for my $c (0..0x110000) { next if $c>=0xAC01 && $c<=0xD7A3; my $k=$c==0x110000?'END':cls($c);
  if(defined $prev && $k ne $prev){ if($prev ne 'Other' && $prev ne 'LV'){ printf "{0x%X,0x%X,%d},",$s,$c-1,$id{$prev}; print "\n" if ++$n%8==0; } $s=$c } $prev=$k; }
print "\n};   // Hangul syllables U+AC00..U+D7A3: LV every 28, LVT otherwise\n#endif\n";
