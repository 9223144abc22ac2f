# Compares contracts/tables with Perl's copy of the Unicode character database
# (15.0): prints code points assigned there whose class differs.
# usage: perl ucd15.pl CONTRACTS
use strict; use warnings; use Unicode::UCD qw(prop_invmap);
my $dir = shift;
sub spread { my ($l,$m,$d)=@_; my @v; for my $i (0..$#$l) { my $hi = $i<$#$l ? $l->[$i+1]-1 : 0x10FFFF; for my $c ($l->[$i]..$hi) { $v[$c]=$m->[$i]; } } return \@v; }
my %core = (graphemes=>['GCB',{map{$_=>1}qw(CR LF Control Extend ZWJ RegionalIndicator Prepend SpacingMark L V T LV LVT)}],
  words=>['WB',{map{$_=>1}qw(CR LF Newline Extend ZWJ Format Katakana HebrewLetter ALetter SingleQuote DoubleQuote MidNumLet MidLetter MidNum Numeric ExtendNumLet RegionalIndicator WSegSpace)}],
  phrases=>['WB',{map{$_=>1}qw(CR LF Newline Extend ZWJ Format Katakana HebrewLetter ALetter SingleQuote DoubleQuote MidNumLet MidLetter MidNum Numeric ExtendNumLet RegionalIndicator WSegSpace)}],
  sentences=>['SB',{map{$_=>1}qw(CR LF Sep Extend Format Sp Lower Upper OLetter Numeric ATerm SContinue STerm Close)}]);
my ($al,$am,undef,undef) = prop_invmap('Age'); my $age = spread($al,$am);
my ($el,$em) = prop_invmap('ExtPict'); my $ext = spread($el,$em);
my ($sl,$sm) = prop_invmap('Script'); my $scr = spread($sl,$sm);
for my $p (sort keys %core) {
  my ($prop,$names) = @{$core{$p}};
  my ($l,$m) = prop_invmap($prop); my $v = spread($l,$m);
  my @t; open my $f,'<',"$dir/tables/$p.txt" or die;
  while(<$f>){ next if /^#/; my ($lo,$hi,$n)=split; for my $c (hex $lo..hex $hi){ push @{$t[$c]},split /,/,$n } }
  my (@d,$last);
  for my $c (0..0x10FFFF) {
    next if $age->[$c] eq 'Unassigned' || ($c>=0xD800&&$c<0xE000);
    my %h = map{$_=>1}@{$t[$c]||[]};
    my @mine = sort grep {$names->{$_}} keys %h;
    my $w = $v->[$c]; $w =~ s/_//g; $w =~ s/ExtPict(XX|LE|\w*)?/$1 eq 'LE'?'ALetter':''/e if $w =~ /ExtPict/; $w = 'WSegSpace' if $w eq 'PerlTailoredHSpace'; $w = '' if $w eq 'Other' || $w eq 'XX';
    my $b = join(',',@mine);
    $b .= '|ExtPict' if $h{ExtendedPictographic}; 
    my $e = $w; $e .= '|ExtPict' if exists $h{__} ; 
    $e .= '|ExtPict' if $p ne 'sentences' && $ext->[$c] eq 'Y';
    push @d, sprintf("%04X %s: contract %s, 15.0 %s",$c,$p,$b,$e) if $b ne $e;
  }
  print "$p: ",scalar(@d)," differences\n"; print "  $_\n" for @d;
}
