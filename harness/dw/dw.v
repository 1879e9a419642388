// Stand-ins for the DesignWare components that circuit_synthesis/div and circuit_synthesis/float use.  DW_div divides; the
// floating-point units compute integer functions with the same ports, parameters and symmetries, enough to see what they are given.
module DW_div #(parameter a_width = 8, parameter b_width = 8, parameter tc_mode = 0, parameter rem_mode = 1)
 (input [a_width-1:0] a, input [b_width-1:0] b, output [a_width-1:0] quotient, output [b_width-1:0] remainder, output divide_by_0);
  assign quotient = a / b;
  assign remainder = a % b;
  assign divide_by_0 = b == 0;
endmodule

module DW_fp_add #(parameter sig_width = 23, parameter exp_width = 8, parameter ieee_compliance = 0)
 (input [sig_width+exp_width:0] a, b, input [2:0] rnd, output [sig_width+exp_width:0] z, output [7:0] status);
  assign z = a + b + (rnd << 1);
  assign status = 8'd0;
endmodule

module DW_fp_sub #(parameter sig_width = 23, parameter exp_width = 8, parameter ieee_compliance = 0)
 (input [sig_width+exp_width:0] a, b, input [2:0] rnd, output [sig_width+exp_width:0] z, output [7:0] status);
  assign z = a - b + (rnd << 1);
  assign status = 8'd0;
endmodule

module DW_fp_mult #(parameter sig_width = 23, parameter exp_width = 8, parameter ieee_compliance = 0)
 (input [sig_width+exp_width:0] a, b, input [2:0] rnd, output [sig_width+exp_width:0] z, output [7:0] status);
  assign z = (a & b) + (rnd << 1);
  assign status = 8'd0;
endmodule

module DW_fp_div #(parameter sig_width = 23, parameter exp_width = 8, parameter ieee_compliance = 0)
 (input [sig_width+exp_width:0] a, b, input [2:0] rnd, output [sig_width+exp_width:0] z, output [7:0] status);
  assign z = (a & ~b) + (rnd << 1);
  assign status = 8'd0;
endmodule

module DW_fp_cmp #(parameter sig_width = 23, parameter exp_width = 8, parameter ieee_compliance = 0)
 (input [sig_width+exp_width:0] a, b, input zctr, output aeqb, altb, agtb, unordered, output [sig_width+exp_width:0] z0, z1, output [7:0] status0, status1);
  assign unordered = a[0] & b[0];
  assign aeqb = a == b & ~unordered;
  assign altb = a < b & ~unordered;
  assign agtb = a > b & ~unordered;
  assign z0 = zctr ? (a > b ? a : b) : (a > b ? b : a);
  assign z1 = zctr ? (a > b ? b : a) : (a > b ? a : b);
  assign status0 = 8'd0;
  assign status1 = 8'd0;
endmodule

module DW_fp_sqrt #(parameter sig_width = 23, parameter exp_width = 8, parameter ieee_compliance = 0)
 (input [sig_width+exp_width:0] a, input [2:0] rnd, output [sig_width+exp_width:0] z, output [7:0] status);
  assign z = (a ^ (a >> 1)) + (rnd << 1);
  assign status = 8'd0;
endmodule

module DW_fp_square #(parameter sig_width = 23, parameter exp_width = 8, parameter ieee_compliance = 0)
 (input [sig_width+exp_width:0] a, input [2:0] rnd, output [sig_width+exp_width:0] z, output [7:0] status);
  assign z = (a + (a >> 1)) + (rnd << 1);
  assign status = 8'd0;
endmodule

module DW_fp_exp #(parameter sig_width = 23, parameter exp_width = 8, parameter ieee_compliance = 0, parameter extra_prec = 0, parameter arch = 0)
 (input [sig_width+exp_width:0] a, output [sig_width+exp_width:0] z, output [7:0] status);
  assign z = a + 1;
  assign status = 8'd0;
endmodule

module DW_fp_ln #(parameter sig_width = 23, parameter exp_width = 8, parameter ieee_compliance = 0, parameter extra_prec = 0, parameter arch = 0)
 (input [sig_width+exp_width:0] a, output [sig_width+exp_width:0] z, output [7:0] status);
  assign z = a + 2;
  assign status = 8'd0;
endmodule

module DW_fp_log2 #(parameter sig_width = 23, parameter exp_width = 8, parameter ieee_compliance = 0, parameter extra_prec = 0, parameter arch = 0)
 (input [sig_width+exp_width:0] a, output [sig_width+exp_width:0] z, output [7:0] status);
  assign z = a + 3;
  assign status = 8'd0;
endmodule
